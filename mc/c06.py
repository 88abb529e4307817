"""C06: attribute rendering rules."""
from mc import core, names, py, sizes, tk
from mc.c01 import HELP, Html, Obj, Sub, el

# attribute number d with the variable v
ATTRS = {
    "const": lambda d, v: ("c%d" % d, (("t", "x&<"),)),
    "empty": lambda d, v: ("e%d" % d, (("t", ""),)),
    "valueless": lambda d, v: ("n%d" % d, None),
    "expr": lambda d, v: ("x%d" % d, (("x", v),)),
    "name": lambda d, v: ("y%d" % d, (("n", v),)),
    "literal": lambda d, v: ("l%d" % d, (("x", "literal(%s)" % v),)),
    "mixed": lambda d, v: ("m%d" % d, (("t", "<"), ("x", v), ("t", "'"))),
    "two": lambda d, v: ("t%d" % d, (("x", v), ("x", v))),
    "space": lambda d, v: ("s%d" % d, (("x", v), ("t", " "))),
    "string": lambda d, v: ("q%d" % d, (("x", "'<q>'"),)),
    "true": lambda d, v: ("xml:r%d" % d, (("x", "True"),)),
    "none": lambda d, v: ("u%d" % d, (("x", "None"),)),
}
NAMES = "abc"


class Key(object):
    def __str__(self):
        return "key"

    def __repr__(self):
        return "Key()"


def values():
    from markupsafe import Markup
    from tonnikala.loader import Loader
    return [None, True, False, "", "<&\"'", 0, 1, 2.5, Markup("<i>&"), Html(), Obj(), [], ["<"], Sub("&"), {},
            Loader().load_string("<b>&amp;</b>").render_to_buffer({}), b"<", "x" * 100]


PYATTRS = {
    "dict": "{'k1': a, 'k2': b}", "list": "[('k1', a), ('k2', b)]", "tuple": "(('k1', a),)", "none": "None", "emptyd": "{}",
    "emptyl": "[]", "gen": "(x for x in [('k1', b), ['k2', a]])", "zip": "list(zip(['k1', 'k2'], [a, b]))", "items": "{'k1': a}.items()",
    "or": "a is None and {'k': 1}", "cond": "a and [('k', a)] or None", "key": "[(key, a), (5, b)]", "repeat": "[('k1', a), ('k1', b)]",
    "markup": "{literal('k'): a}", "str": "''", "kw": "dict(k=a)", "mapping": "mapping",
}
V = None


def prepare():
    global V
    V = values()


def contexts(n, full):
    from collections import OrderedDict
    from types import MappingProxyType
    rv = []
    for i, a in enumerate(V):
        others = V if full else (V[(i + 1) % len(V)], V[(i + 5) % len(V)])
        for b in (others if n > 1 else V[:1]):
            rv.append(dict(a=a, b=b, c=V[(i + 3) % len(V)], key=Key(),
                           mapping=MappingProxyType(OrderedDict([("z", a), ("y", b)]))))
    return rv


def gen(n, full, pyattrs):
    def g(choose):
        seq = tuple(choose(sorted(ATTRS)) for _ in range(choose(n)))
        pa = choose(pyattrs)
        shape = choose(("br", "p", "p-text", "p-content", "p-strip", "script", "in-def", "p-if"))
        return seq, pa, shape, full
    return g


def build(case):
    seq, pa, shape, full = case
    attrs = [ATTRS[k](d, NAMES[d]) for d, k in enumerate(seq)]
    ctl = (("attrs", PYATTRS[pa]),) if pa else ()
    tag = shape.split("-")[0]
    kids = ()
    if shape == "p-text":
        kids = (("t", "&"), ("x", "a"))
    elif shape == "p-content":
        ctl += (("content", "a"),)
    elif shape == "p-strip":
        ctl += (("strip", "a"),)
    elif shape == "p-if":
        ctl = (("if", "1"), ("with", (("z", "a"),))) + ctl
    if tag == "in":
        return (el("html", (), (), [("c", "def", ("f", None), (), (el("i", attrs, ctl, ()), ("x", "b"))), ("x", "f()")]),)
    return (el("html", (), (), [("t", "<"), el(tag, attrs, ctl, kids), ("t", ">")]),)


def run(case):
    return py.compare({"t": build(case)}, "t", contexts(max(len(case[0]), 2 if case[1] else 0), case[3]))


def gen_root(choose):
    return tuple(choose(sorted(ATTRS)) for _ in range(2)), choose((None, "dict")), choose(("br", "p"))


def run_root(case):
    seq, pa, tag = case
    attrs = [ATTRS[k](d, NAMES[d]) for d, k in enumerate(seq)]
    return py.compare({"t": (el(tag, attrs, (("attrs", PYATTRS[pa]),) if pa else (), ()),)}, "t", contexts(2, False))


# --------------------------------------------------------- values of py:attrs
def containers():
    from collections import ChainMap, OrderedDict, UserDict, defaultdict, deque
    from collections.abc import Mapping
    from types import MappingProxyType

    class M(Mapping):
        def __init__(self, items):
            self.d = OrderedDict(items)

        def __getitem__(self, k):
            return self.d[k]

        def __iter__(self):
            return iter(self.d)

        def __len__(self):
            return len(self.d)

    class D(dict):
        def items(self):
            return [(k, v) for k, v in super().items() if k]

    class Iterable(object):
        def __init__(self, items):
            self.l = list(items)

        def __iter__(self):
            return iter(self.l)

    class Sequence(object):
        def __init__(self, items):
            self.l = list(items)

        def __getitem__(self, i):
            return self.l[i]

    class L(list):
        def items(self):
            return [("not", "used")]

    return [("dict", dict), ("OrderedDict", OrderedDict), ("MappingProxyType", lambda i: MappingProxyType(OrderedDict(i))), ("ChainMap", lambda i: ChainMap({}, OrderedDict(i))), ("UserDict", UserDict),
            ("defaultdict", lambda i: defaultdict(list, i)), ("Mapping", M), ("dict subclass", D), ("items()", lambda i: dict(i).items()), ("list", list), ("tuple", tuple), ("deque", deque), ("iter", lambda i: iter(list(i))),
            ("generator", lambda i: (x for x in list(i))), ("map", lambda i: map(tuple, list(i))), ("iterable", Iterable), ("sequence", Sequence), ("set", lambda i: set(list(i)[:1])), ("frozenset", lambda i: frozenset(list(i)[:1]))]


PAIRS = [lambda k, v: (k, v), lambda k, v: [k, v], lambda k, v: iter((k, v)), lambda k, v: {k: 1, v: 2}]
ITEMS = [("k", "v"), ("k", "w"), ("l", None), ("m", True), ("n", False), ("class", ""), ("", "e"), ("o", 0), ("<", "<"), ("p-q:r", "&"), (5, 5), ("s", ()), ("data", "ab"), ("style", ["x"]), ("K", "V")]
OTHERS = ["''", "0", "()", "{}", "None", "False", "5", "True", "'ab'", "'a'", "['ab', 'cd']", "('ab', 'cd')", "('ab',)", "iter(['ab', 'cd'])", "{'ab', }", "{'ab': 'cd'}", "['a']", "['abc']", "[('a',)]", "[('a', 'b', 'c')]", "[None]", "[5]",
          "[('a', 1), 5]", "[('a', 1), ('b',)]", "[[], []]", "[('a', 'b'), ['c', 'd'], 'ef']", "b''", "b'ab'", "['', '']", "range(0)", "range(2)", "(('a', 'b'))", "(('a', 'b'),)", "[(None, 1)]", "[(True, True)]", "[('a', 1), ('a', 2)]", "object", "lambda: 1", "f", "f()", "(x for x in ())"]


def gen_containers(choose):
    k = choose(len(containers()))
    n = choose((0, 1, 2))
    return k, tuple(choose(len(ITEMS)) for _ in range(n)), choose(len(PAIRS)) if n and containers()[k][0] in ("list", "iterable", "generator") else 0


def run_containers(case):
    k, items, pair = case
    kind, make = containers()[k]
    items = [ITEMS[i] for i in items]
    if pair == 3 and any(a == b for a, b in items):
        return None
    mapping = isinstance(make([]), dict) or k < 9
    merged = list(dict(items).items()) if mapping else items[:1] if "set" in kind else items
    if kind == "dict subclass":
        merged = [i for i in merged if i[0]]
    # a mapping without items, whether shown by its truth or not
    want = "".join(attr_text(a, b) for a, b in merged)
    t = py.load1('<html><p a="1" py:attrs="x">x</p><br py:attrs="y" b="$z"/></html>')
    try:
        arg = make([PAIRS[pair](*i) for i in items])
        arg2 = make([PAIRS[pair](*i) for i in items])
    except TypeError:
        return None     # what cannot be hashed
    got = py.render(t, dict(x=arg, y=arg2, z=5))
    want = "ok", '<html><p a="1"%s>x</p><br b="5"%s /></html>' % (want, want)
    core.outcome(got)
    if got != want:
        return "py:attrs with %s of %r\n  gives    %r\n  expected %r" % (kind, items, got, want)


def attr_text(k, v):
    if v is None or v is False:
        return ""
    return ' %s="%s"' % (k, k if v is True else tk.escape(str(v)))


def gen_others(choose):
    return choose(OTHERS), choose(("p", "br", "p-text", "in-def"))


def run_others(case):
    e, shape = case
    tag = shape.split("-")[0]
    node = el("i" if tag == "in" else tag, [("c", (("t", "x"),))], (("attrs", e),), (("t", "&"),) if shape == "p-text" else ())
    if tag == "in":
        node = ("c", "def", ("g", None), (), (node,))
    return py.compare({"t": (el("html", (), (), [node] + ([("x", "g()")] if tag == "in" else [])),)}, "t", [dict(f=f) for f in (dict, list, int, str, None)])


# --------------------------------------------------- expressions of every form
def gen_forms(choose):
    from mc import c01
    f = choose(c01.FORMS)
    return c01.form(f, choose(("v", "'<'", "5", "literal('<')", "None", "True", "''")), "v"), choose(("single", "name", "mixed", "attrs", "two"))


def run_forms(case):
    import ast
    e, how = case
    try:
        compile(e, "x", "eval")
    except SyntaxError:
        return None
    if how == "attrs" and len(ast.parse("f(%s)" % e).body[0].value.args) != 1:
        return None
    attrs, ctl = {"single": ([("x", (("x", e),))], ()), "name": ([("title", (("x", " %s " % e),))], ()), "mixed": ([("x", (("x", e), ("t", " "))), ("y", (("t", "-"), ("x", e)))], ()), "attrs": ([], (("attrs", "{'x': %s}" % e),)),
                  "two": ([("x", (("x", e), ("x", e)))], ())}[how]
    return py.compare({"t": (el("html", (), (), [el("p", attrs, ctl, ()), el("br", attrs, ctl, ())]),)}, "t", [dict(v=v, w=w, h=HELP) for v in (V[0], V[1], V[2], V[3], V[4], V[5], V[8], V[12]) for w in ((0, 1) if "w" in e else (1,))])


# ------------------------------------------------ every element and attribute
def gen_elements(choose):
    tag, seq, pa = choose(names.TAGS), tuple(choose(sorted(ATTRS)) for _ in range(choose((0, 1)))), choose((None, "dict", "list", "none", "emptyd"))
    return tag, seq, pa


def run_elements(case):
    tag, seq, pa = case
    attrs = [ATTRS[k](d, NAMES[d]) for d, k in enumerate(seq)]
    node = el(tag, attrs, (("attrs", PYATTRS[pa]),) if pa else (), ())
    return py.compare({"t": (el("html", (), (), [node]),)}, "t", contexts(2 if pa else 1, False))


def gen_names(choose):
    return choose(names.ATTRS), choose(sorted(ATTRS) + ["given", "both", "novalue"]), choose(("p", "input", "a", "script"))


def run_names(case):
    name, how, tag = case
    attrs, ctl = [], ()
    if how == "given" or how == "both":
        ctl = (("attrs", "[(%r, a), ('zz', b)]" % name),)
    if how == "both":
        attrs = [(name, (("t", "x"),)), ("k", (("x", "a"),))]
    elif how == "novalue":
        attrs = [(name, None)]
    elif how != "given":
        attrs = [(name, ATTRS[how](0, "a")[1])]
    return py.compare({"t": (el("html", (), (), [el(tag, attrs, ctl, ())]),)}, "t", contexts(1, False))


def suites(tier):
    deep = tier == "thorough"
    pas = sorted(PYATTRS)
    return [
        core.Suite("root", gen_root, run_root, "attributes of the root element"),
        core.Suite("single", gen((0, 1), True, [None] + pas), run,
                   "one attribute and py:attrs forms x element shapes x all pairs of %d values" % len(V)),
        core.Suite("pairs", gen((2,), deep, [None, "dict", "list", "none", "emptyd"]), run, "two attributes"),
        core.Suite("containers", gen_containers, run_containers, "%d kinds of containers of up to 2 of %d pairs for py:attrs" % (len(containers()), len(ITEMS))),
        core.Suite("elements", gen_elements, run_elements, "attributes of every HTML element"),
        core.Suite("names", gen_names, run_names, "every HTML attribute in every form"),
        core.Suite("others", gen_others, run_others, "%d other values of py:attrs" % len(OTHERS)),
        core.Suite("forms", gen_forms, run_forms, "expressions of every form"),
        core.Suite("triples", gen((3,), False, [None, "dict"] if deep else [None]), run, "three attributes"),
        sizes.suite("attrs_dict attrs_list parts attributes dynamic_attributes overridden_attributes value name_tag strips characters element_for", tier),
    ]
