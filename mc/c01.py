"""C01: interpolated values are escaped exactly once."""
import ast
import re

from mc import core, names, py, sizes, tk


class Html(object):
    def __html__(self):
        return "<h>&amp;\"</h>"

    def __str__(self):
        return "<plain & str>"

    def __repr__(self):
        return "Html()"


class Obj(object):
    def __str__(self):
        return "<obj & '\">"

    def __repr__(self):
        return "Obj()"


class Sub(str):
    pass


def values():
    from markupsafe import Markup
    from tonnikala.loader import Loader
    frag = Loader().load_string("<b>&amp;${'<'}</b>").render_to_buffer({})
    return ["a<b>&\"c'", Markup("<i>&amp;\"'</i>"), Html(), Obj(), "&lt;&amp;amp;", "", 5, 0, -1.5,
            None, True, False, ["<", Markup("&")], b"<&>", Sub("<s>&"), "\u20ac\U0001f600<", "x" * 300 + "<",
            frag, {"<": "&"}] + ["a%sb" % c for c in "&<>\"'"] + ["&", "'"]


def el(tag, attrs=(), ctl=(), kids=()):
    return ("el", tag, tuple(attrs), tuple(ctl), tuple(kids))


T = ("t", "a & < b'\"")
SINKS = [
    lambda e: [("x", e)],
    lambda e: [("t", "k&"), ("x", e), ("t", "<l")],
    lambda e: [("x", e), ("x", e)],
    lambda e: [el("p", [("id", (("x", e),))])],
    lambda e: [el("p", [("id", (("t", "a&"), ("x", e)))])],
    lambda e: [el("p", [("id", (("x", e), ("x", e)))])],
    lambda e: [el("p", [("c", (("t", "<"),)), ("id", (("x", e), ("t", "'"))), ("d", (("x", e),))])],
    lambda e: [el("p", [], [("content", e)])],
    lambda e: [el("p", [("id", (("x", e),))], [("replace", e)])],
    lambda e: [("c", "replace", e, (), ())],
    lambda e: [el("p", [], [("attrs", "{'q': %s, 'r': %s}" % (e, e))])],
    lambda e: [el("br", [("q", (("t", "x"),))], [("attrs", "[('id', %s)]" % e)])],
    lambda e: [el("script", [], [], [("t", "if (a < b && c) "), ("x", e)])],
    lambda e: [el("p", [], [("strip", "not 0"), ("content", e)])],
]
EXPRS = ["v", "literal(v)", "(v)", "[v][0]", "v if 1 else v", "literal(v) if w else v", "w and literal(v)",
         "literal(literal(v))", "literal(v) and literal(v)", "str(literal(v))", "(lambda: literal(v))()",
         "w and v", "'<%s>' % v", "literal('<%s>') % v", "gettext('<&>')", "literal('<i>&')", "'<i>&'",
         "literal(5)", "literal(v) + v",
         # what looks like the helper, but is not
         "h.literal('<i>&')", "h.literal(v)", "(lambda literal: literal)(str)('<i>&')", "h.h.literal('<i>&')", "h.escape('<&')", "literal(h.literal('<i>&'))", "h.literal(literal('<&'))", "h.literal",
         "[literal][0]('<&')", "(literal)('<&')", "literal('<' '&')", "literal(*['<&'])", "literal('<&' + v)", "literal(f'<&{1}')", "str('<&')", "h('<&')", "literal('<&').upper()"]


class LookAlike(object):
    """has methods that are named like the helpers"""
    def literal(self, s):
        return "<lit>%s" % s

    escape = literal

    @property
    def h(self):
        return self

    def __call__(self, s):
        return "<call>" + s

    def __repr__(self):
        return "<h>"

# k: function from the name of the value to the nodes inside; v: its name outside
WRAPS = {
    "el": lambda k, v, d: [el("div", [], [], [T] + k(v) + [T])],
    "if": lambda k, v, d: [("c", "if", "w", (), tuple(k(v)))],
    "if1": lambda k, v, d: [("c", "if", "1", (), tuple(k(v)))],
    "for": lambda k, v, d: [("c", "for", ("i%d" % d, "[1, 2]"), (), tuple(k(v)))],
    "forv": lambda k, v, d: [("c", "for", ("v%d" % d, "[%s]" % v), (), tuple(k("v%d" % d)))],
    "with": lambda k, v, d: [("c", "with", (("v%d" % d, v),), (), tuple(k("v%d" % d)))],
    "def": lambda k, v, d: [("c", "def", ("f%d" % d, None), (), tuple(k(v))), ("x", "f%d()" % d)],
    "def2": lambda k, v, d: [("c", "def", ("f%d" % d, (("v%d" % d, None),)), (), tuple(k("v%d" % d))),
                             el("p", [("id", (("x", "f%d(%s)" % (d, v)),))], [], [("x", "f%d(%s)" % (d, v))])],
    "defl": lambda k, v, d: [("c", "def", ("f%d" % d, None), (), tuple(k(v))), ("x", "literal(f%d())" % d),
                             ("x", "str(f%d())" % d)],
    "defw": lambda k, v, d: [("c", "def", ("f%d" % d, None), (), tuple(k(v))),
                             ("c", "with", (("r%d" % d, "f%d()" % d),), (), (("x", "r%d" % d), ("x", "r%d" % d)))],
    "defb": lambda k, v, d: [("c", "def", ("f%d" % d, (("a", None),)), (), (("x", "a"),)),
                             ("c", "with", (("z", "1"),), (), (("c", "def", ("g%d" % d, None), (), tuple(k(v))),
                                                            ("x", "f%d(g%d())" % (d, d))))],
    "block": lambda k, v, d: [("c", "block", "b%d" % d, (), tuple(k("v")))],
}


def gen_for(depths, sinks, exprs, wraps):
    def gen(choose):
        e = choose(exprs)
        s = choose(len(sinks))
        path = tuple(choose(wraps) for _ in range(choose(depths)))
        return e, s, path
    return gen


def sink(s, e, v):
    return SINKS[s](re.sub(r"\bv\b", v, e))


def build(case):
    e, s, path = case

    def inner(i):
        if i == len(path):
            return lambda v: sink(s, e, v)
        return lambda v: WRAPS[path[i]](inner(i + 1), v, i)

    return (el("html", [], [], inner(0)("v")),)


VALUES = None
HELP = LookAlike()


def prepare():
    global VALUES
    VALUES = values()


def run(case):
    nodes = build(case)
    if len(repr(nodes)) > 20000:
        return None
    return py.compare({"t": nodes}, "t", [dict(v=v, w=w, h=HELP) for w in (1, 0) for v in VALUES])


# ------------------------------------------------------- forms of expressions
# every form of expression that can give a text, of A and B
FORMS = ["A + B", "B + A", "A * 2", "2 * A", "A * B", "A % 2", "A % B", "A % (B,)", "'%s' % A", "'<%s>' % (A,)", "'%s%r' % (A, B)", "A - 1", "A / 2", "A // 1", "A ** 2", "A >> 0", "A | B", "A & B", "A ^ B", "A @ B",
         "-A", "+A", "~A", "not A", "A or B", "B or A", "A and B", "A if w else B", "B if w else A", "A if B else A", "A == B", "A < B", "A in B", "A is None", "A < B < A",
         "[A]", "(A,)", "(A, B)", "{A}", "{A: B}", "{'k': A}", "[*A]", "{**A}", "[A][0]", "(A, B)[1]", "{'k': A}['k']", "A[0]", "A[-1]", "A[:2]", "A[::2]", "A['k']",
         "str(A)", "repr(A)", "literal(A)", "literal(str(A))", "literal(A) + B", "A + literal(B)", "str(A) + B", "str(A) * 2", "list(A)", "dict(k=A)", "len(A)", "int(A)", "bool(A)", "ascii(A)", "format(A)", "format(A, '')", "max(A, B)", "sorted(A)",
         "A.upper()", "A.strip()", "A.format(B)", "'{}'.format(A)", "'{0}<{1}'.format(A, B)", "''.join([A, B])", "B.join(A)", "''.join(A)", "A.join('<>')", "A.replace('a', B)", "A.encode()", "A.__html__()", "A.__str__()", "A.__class__.__name__", "A.k",
         "f'{A}'", "f'<{A}>'", "f'{A!r}'", "f'{A}{B}'", "f'{A:5}'", "f'{A=}'", "f'<&'", "f'{A}' B", "f'{1}<{2}'", "'<' '&'", "'a' f'{A}'",
         "[i for i in A]", "[A for i in '12']", "''.join(i for i in A)", "{i: A for i in '1'}", "(lambda: A)()", "(lambda q=A: q)()", "(lambda q: q + B)(A)", "(lambda *q: q[0])(A)", "(q := A)", "[q := A, q][1]", "getattr(A, 'x', B)", "next(iter([A]))", "(A)", "((A, B))[0]", "h(A)", "h.escape(A)",
         "type('T', (), {'__str__': lambda s: A, '__repr__': lambda s: '<T>'})()", "type('T', (), {'__html__': lambda s: str(A), '__repr__': lambda s: '<T>'})()", "...", "A, B", "*A, B"]
ATOMS = ["v", "'<'", "'\"'", '"\'"', "'&'", "'>'", "'&lt;'", "'a'", "'it\\'s'", "'''<\"'''", "u'<'", "r'\\<'", "b'<'", "5", "0", "-1.5", "True", "None", "''", "literal('<')", "'\\x3c'", "'€<'", "'<' * 2"]
OTHER = ["'>'", "v", "2"]


def form(f, a, b):
    wrap = lambda x: x if re.match(r"^(\w+|'[^']*')$", x) else "(%s)" % x
    return re.sub(r"\b[AB]\b", lambda m: wrap(a if m.group() == "A" else b), f)


def gen_form(level, sinks):
    def gen(choose):
        if level == 0:
            return choose(ATOMS), choose(sinks)
        if level == 1:
            f = choose(FORMS)
            return form(f, choose(ATOMS), choose(OTHER if "B" in f else OTHER[:1])), choose(sinks)
        f, g = choose(FORMS), choose([x for x in FORMS if "A" in x])
        return form(g, form(f, choose(ATOMS[:2]), OTHER[0]), OTHER[0]), choose(sinks)
    return gen


FORM_VALUES = (0, 1, 6, 9, 16, 19)


def run_form(case):
    e, s = case
    try:
        compile(e, "x", "eval")
    except SyntaxError:
        return None
    if s in (10, 11) and len(ast.parse("f(%s)" % e).body[0].value.args) != 1:
        return None
    nodes = (el("html", [], [], SINKS[s](e)),)
    vs = [VALUES[i] for i in FORM_VALUES] if re.search(r"\bv\b", e) else VALUES[:1]
    return py.compare({"t": nodes}, "t", [dict(v=v, w=w, h=HELP) for w in ((1, 0) if re.search(r"\bw\b", e) else (1,)) for v in vs])


# the same positions across imports and inheritance
def gen_multi(choose):
    return choose(EXPRS[:6]), choose(len(SINKS)), choose(("import", "import_arg", "extends_block", "extends_def",
                                                          "import_attr", "import_in_def", "import_in_loop"))


def run_multi(case):
    e, s, mode = case
    body = SINKS[s](e)
    if mode.startswith("import"):
        lib = (el("lib", [], [], [("c", "def", ("f", (("v", "v"),) if mode != "import_arg" else (("v", None),)), (),
                                   tuple(body))]),)
        call = "m.f(v)" if mode == "import_arg" else "m.f()"
        use = [("x", call)]
        if mode == "import_attr":
            use = [el("p", [("id", (("x", call),)), ("q", (("t", "<"), ("x", call)))], [("content", call)])]
        imp = ("imp", "lib", "m")
        if mode == "import_in_def":
            use = [("c", "def", ("g", None), (), tuple(use)), ("x", "g()"), el("p", [("a", (("x", "g()"),))])]
        if mode == "import_in_loop":
            use = [("c", "for", ("i", "[1, 2]"), (), tuple(use))]
        ts = {"t": (el("html", [], [], [imp] + use),), "lib": lib}
    else:
        kind = mode.split("_")[1]
        if kind == "block":
            base = (el("html", [], [], [("c", "block", "b", (), (T,))]),)
            child = (("ext", "base", (("c", "block", "b", (), tuple(body)),)),)
        else:
            base = (el("html", [], [], [("c", "def", ("b", None), (), (T,)), ("x", "b()"),
                                        el("p", [("i", (("x", "b()"),))])]),)
            child = (("ext", "base", (("c", "def", ("b", None), (), tuple(body)),)),)
        ts = {"t": child, "base": base}
    return py.compare(ts, "t", [dict(v=v, w=w, h=HELP) for w in (1, 0) for v in VALUES])


# ------------------------------------------------ every element and attribute
NAME_SINKS = ["text", "content", "replace", "attrs", "strip", "loop", "def"]


def gen_elements(choose):
    tag, s = choose(names.TAGS), choose(NAME_SINKS)
    if tag in names.VOIDS and s in ("text", "content", "strip", "loop"):
        raise core.Skip()
    return tag, s


def run_elements(case):
    tag, s = case
    x = () if tag in names.VOIDS else (("t", "a"), ("x", "v"))
    ctl = {"content": (("content", "v"),), "replace": (("replace", "v"),), "attrs": (("attrs", "{'k': v, 'data-x': v}"),), "strip": (("strip", "1"),),
           "loop": (("for", ("v", "vs")),)}.get(s, ())
    nodes = [el(tag, (("id", (("t", "a"), ("x", "v"))), ("q", (("n", "v"),))), ctl, x)]
    if s == "def":
        nodes = [("c", "def", ("f", None), (), tuple(nodes)), ("x", "f()"), el("b", (("a", (("x", "f()"),)),), (), ())]
    return py.compare({"t": (el("html", (), (), nodes),)}, "t", [dict(v=v, vs=[v, "<"]) if s != "loop" else dict(vs=[v, "<"]) for v in VALUES])


def gen_names(choose):
    return choose(names.ATTRS), choose(("dynamic", "name", "mixed", "two", "url", "given", "title")), choose(("p", "input", "script", "a"))


def run_names(case):
    name, value, tag = case
    attrs, ctl = ((name, ((("x", "'<\"'"), ("x", "v")) if value == "title" else names.VALUES[value])),) if value != "given" else (), ()
    if value == "given":
        ctl = (("attrs", "{%r: v, 'z': v}" % name),)
    return py.compare({"t": (el("html", (), (), [el(tag, attrs, ctl, ())]),)}, "t", [dict(v=v) for v in VALUES])


def suites(tier):
    deep = tier == "thorough"
    nos = ["if", "for", "def", "def2", "defw", "block", "with"]
    return [
        core.Suite("positions", gen_for([0, 1, 2], SINKS, EXPRS[:7], sorted(WRAPS)), run,
                   "7 expressions x 14 positions x nestings up to 2 of 12 constructs; 26 values x 2 conditions each"),
        core.Suite("expressions", gen_for([0, 1], SINKS, EXPRS[7:], sorted(WRAPS)), run,
                   "30 more expressions, nestings up to 1"),
        core.Suite("nesting3", gen_for([3], SINKS if deep else SINKS[:1] + SINKS[3:5], EXPRS[:3] if deep else EXPRS[:2],
                                       sorted(WRAPS) if deep else nos), run, "nestings of depth 3"),
        core.Suite("constants", gen_form(0, range(len(SINKS))), run_form, "constants of every kind at every position"),
        core.Suite("forms", gen_form(1, [0, 3, 4, 7, 10] if not deep else range(len(SINKS))), run_form, "%d forms of expressions, of %d values" % (len(FORMS), len(ATOMS))),
        core.Suite("forms2", gen_form(2, [0] if not deep else [0, 3, 4, 7, 10]), run_form, "every form of expression of every other"),
        core.Suite("elements", gen_elements, run_elements, "every HTML element with every value in and around it"),
        core.Suite("attribute_names", gen_names, run_names, "every HTML attribute with every value"),
        core.Suite("import_extends", gen_multi, run_multi, "positions in imported and inherited definitions"),
        sizes.suite("children expressions names variables value loop inner_loop rows loop_def attrs_dict attrs_list parts dynamic_attributes depth depth_def contents with defs blocks code name_variable name_def chain imports", tier),
    ]
