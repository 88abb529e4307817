"""C04: the control constructs mean what they are documented to mean."""
import re

from mc import core, py, sizes, tk
from mc import names as html
from mc.c01 import el

OUTER = ("block", "if", "unless", "for", "def", "with")
ARGS = {"if": "w", "unless": "u", "for": ("i", "L"), "with": (("y", "'<y>'"),), "block": "bl",
        "def": ("f", (("a", "'d'"),))}
INNER = [(), (("strip", "s"),), (("strip", ""),), (("content", "c"),), (("replace", "c"),), (("attrs", "at"),),
         (("strip", "s"), ("content", "c")), (("strip", "s"), ("attrs", "at")), (("content", "c"), ("attrs", "at")),
         (("strip", "s"), ("replace", "c")), (("strip", "s"), ("content", "c"), ("attrs", "at")),
         (("replace", "c"), ("attrs", "at")), (("content", "c"), ("replace", "r"))]
BASE = dict(i="ci", y="cy", a="ca", c="<c>", r="<r>", at=[("k", "<"), ("n", None), ("t", True)])


def contexts(kinds, inner):
    rv = [dict(BASE, w=1, u=0, L=[1, 2], s=0)]
    if "if" in kinds:
        rv += [dict(c, w="") for c in rv]
    if "unless" in kinds:
        rv += [dict(c, u=[0]) for c in rv]
    if "for" in kinds:
        rv += [dict(c, L=L) for c in list(rv) for L in ([], "ab")]
    if "strip" in dict(inner):
        rv += [dict(c, s=1) for c in rv]
    return rv


def gen_combo(wrap):
    def gen(choose):
        kinds = tuple(k for k in OUTER if choose((0, 1)))
        inner = choose(INNER)
        # content in a void element is not meaningful
        void = () if "content" in dict(inner) else ("void",)
        form = choose(("attr", "attr-reversed") + void + kinds)
        where = choose(("root", "in") if not wrap else ("for", "def", "if1", "with", "block"))
        return kinds, inner, form, where
    return gen


def combo(case):
    kinds, inner, form, where = case
    ctl = tuple((k, ARGS[k]) for k in kinds) + inner
    if form == "attr-reversed":
        ctl = ctl[::-1]
    kids = (("t", "k&"), ("x", "i"), ("x", "y"), ("x", "a"))
    attrs = (("id", (("x", "i"), ("t", "-"), ("x", "a"))), ("st", (("t", "<"),)))
    if form in OUTER:
        # the first construct as an element; it contains what the rest of them apply to
        ctl = tuple((k, a) for k, a in ctl if k != form)
        if [k for k, a in inner if k in ("strip", "replace", "content", "attrs")]:
            node = ("c", form, ARGS[form], (), (el("b", attrs, ctl, kids),))
        else:
            node = ("c", form, ARGS[form], ctl, kids)
    elif form == "void":
        node = el("br", attrs, ctl, ())
    else:
        node = el("b", attrs, ctl, kids)
    nodes = [("t", "<1>"), node, ("t", "2")]
    if "def" in kinds and "for" not in kinds and "block" not in kinds:
        nodes += [("x", "f()"), ("x", "f('<z>')"), ("x", "f(a=5)")]
    if where == "root":
        return kinds, inner, (el("html", (), (), nodes),)
    if where == "in":
        return kinds, inner, (el("html", (), (), (el("p", (), (), nodes),)),)
    return kinds, inner, (el("html", (), (), [{
        "for": ("c", "for", ("q", "[1, 2]"), (), tuple(nodes)),
        "if1": ("c", "if", "1", (), tuple(nodes)),
        "with": ("c", "with", (("q", "2"),), (), tuple(nodes)),
        "block": ("c", "block", "ob", (), tuple(nodes)),
        "def": ("c", "def", ("od", None), (), tuple(nodes))}[where]]
        + ([("x", "od()"), ("x", "od()")] if where == "def" else [])),)


def run_combo(case):
    kinds, inner, nodes = combo(case)
    return py.compare({"t": nodes}, "t", contexts(kinds, inner))


# ------------------------------------------------------------- nesting of constructs
# each: (k, v, d) -> nodes, where k(name) gives the nodes inside and name is the closest variable
def two(kind, arg, inner_name=None, after=lambda d: ()):
    def as_element(k, v, d):
        a = arg(v, d)
        return [("c", kind, a, (), tuple(k(inner_name(v, d) if inner_name else v)))] + list(after(d))

    def as_attr(k, v, d):
        a = arg(v, d)
        n = inner_name(v, d) if inner_name else v
        return [el("i", (("k", (("x", n),)),), ((kind, a),), k(n))] + list(after(d))
    return as_element, as_attr


FORMS = {}
for kind, arg, name, after in [
    ("if", lambda v, d: "w", None, None),
    ("unless", lambda v, d: "w", None, None),
    ("if", lambda v, d: "len(str(%s)) == 1" % v, None, None),
    ("for", lambda v, d: ("v%d" % d, "L"), lambda v, d: "v%d" % d, None),
    ("for", lambda v, d: ("(a%d, v%d)" % (d, d), "[(1, %s), (2, 'q')]" % v), lambda v, d: "v%d" % d, None),
    ("with", lambda v, d: (("v%d" % d, "'<%%s>' %% %s" % v),), lambda v, d: "v%d" % d, None),
    ("with", lambda v, d: (("v%d" % d, v), ("w%d" % d, "v%d" % d)), lambda v, d: "w%d" % d, None),
    ("def", lambda v, d: ("f%d" % d, (("v%d" % d, "'D'"),)), lambda v, d: "v%d" % d,
     lambda d: (("x", "f%d()" % d), ("x", "f%d('&')" % d))),
    ("def", lambda v, d: ("f%d" % d, None), None, lambda d: (("x", "f%d()" % d), ("x", "f%d()" % d))),
    ("block", lambda v, d: "b%d" % d, lambda v, d: "c", lambda d: ()),
]:
    n = sum(1 for q in FORMS if q.startswith(kind + "e"))
    e, a = two(kind, arg, name, after or (lambda d: ()))
    FORMS["%se%d" % (kind, n)], FORMS["%sa%d" % (kind, n)] = e, a
FORMS["el"] = lambda k, v, d: [el("p", (), (), [("t", "x")] + k(v) + [("t", "y")])]
FORMS["strip"] = lambda k, v, d: [el("p", (), (("strip", "w"),), k(v))]
FORMS["strip0"] = lambda k, v, d: [el("p", (), (("strip", ""),), k(v))]


LEAVES = {"use": lambda v: [("t", "&"), ("x", v)], "empty": lambda v: [], "comment": lambda v: [("raw", "<!--! x -->", "")],
          "never": lambda v: [("c", "if", "0", (), (("t", "x"),))], "never2": lambda v: [el("p", (), (("unless", "1"),), (("x", v),))]}


def gen_nest(n, names, leaves=("use",)):
    def gen(choose):
        return tuple(choose(names) for _ in range(n)) + (choose(leaves), choose((1, 0)) if len(leaves) > 1 else 1)
    return gen


CTXS = [dict(c="<c>", w=w, L=L) for w in (1, 0) for L in ([], ["<"], [1, 2])]


def run_nest(case):
    path, leaf, around = case[:-2], case[-2], case[-1]

    def inner(i):
        if i == len(path):
            return LEAVES[leaf]
        if not around:
            return lambda v: FORMS[path[i]](inner(i + 1), v, i)
        return lambda v: [("t", "(")] + FORMS[path[i]](inner(i + 1), v, i) + [("x", v), ("t", ")")]
    return py.compare({"t": (el("html", (), (), inner(0)("c")),)}, "t", CTXS)


def run_sib(case):
    """outer(inner(leaf), inner2(leaf)): siblings within a construct"""
    path = case[:-2]

    def leaf(v):
        return [("x", v)]

    def kids(v):
        return (FORMS[path[1]](leaf, v, 1) + [("t", ",")] + FORMS[path[2]](leaf, v, 2))
    return py.compare({"t": (el("html", (), (), FORMS[path[0]](kids, "c", 0)),)}, "t", CTXS)


# ------------------------------------------------------------- arguments of the constructs
FORMSRC = [
    ("for", "a in L", "${a}"), ("for", "a,b in P", "${a}${b}"), ("for", "(a, b) in P", "${a}${b}"),
    ("for", "a, (b, c) in Q", "${a}${b}${c}"), ("for", "[a, b] in P", "${a}${b}"), ("for", "a, *b in P", "${a}${b}"),
    ("for", "a in (x for x in L if x)", "${a}"), ("for", "a in (\n L)", "${a}"), ("for", "k,v in sorted(D.items())", "${k}${v}"),
    ("for", "i, (a, b) in enumerate(P)", "${i}${a}${b}"), ("for", "a in L or [7]", "${a}"),
    ("with", "a=1", "${a}"), ("with", "a=1;b=a+1", "${a}${b}"), ("with", "a, b = 1, 2", "${a}${b}"),
    ("with", "a=b=3", "${a}${b}"), ("with", " a=1; ", "${a}"), ("with", "a=';'", "${a}"), ("with", "a={'b': 1}", "$a['b']"),
    ("def", "f", None), ("def", "f()", None), ("def", "f(a=1)", None), ("def", "f(a=1, b='x,y)')", None),
    ("def", "f(*a)", None), ("def", "f(**a)", None), ("def", "f(*, a=2)", None), ("def", "f(a=(1, 2))", None),
    ("if", "w", "t"), ("if", " w ", "t"), ("if", "(w and\n L)", "t"), ("if", "not w", "t"), ("if", "w == 1", "t"),
    ("if", "(lambda: w)()", "t"), ("if", "[q for q in L if q]", "t"), ("if", "w &gt; 0", "t"), ("if", "'a' in 'abc'", "t"),
    ("unless", "w", "t"), ("unless", "w or L", "t"), ("unless", "not w", "t"), ("unless", "1", "t"), ("unless", "0", "t"),
    ("unless", "True", "t"), ("unless", "None", "t"), ("unless", "''", "t"), ("unless", "not 0", "t"), ("unless", "[]", "t"),
    ("if", "1", "t"), ("if", "0", "t"), ("if", "True", "t"), ("if", "False", "t"), ("if", "None", "t"), ("if", "''", "t"),
    ("if", "'x'", "t"), ("if", "not 0", "t"), ("if", "not not ''", "t"), ("if", "[]", "t"), ("if", "[0]", "t"), ("if", "()", "t"),
    ("if", "{}", "t"), ("if", "-1", "t"), ("if", "0.0", "t"), ("if", "not None", "t"), ("if", "not w and True", "t"),
]
SRC_CTX = [dict(w=w, L=L, P=[(1, 2), (3, 4)], Q=[(1, (2, 3))], D={"x": 1}) for w in (1, 0) for L in ([], [1, 0])]


def gen_args(choose):
    n = choose(len(FORMSRC))
    # py:vars is another name of py:with
    return n, choose(("element", "attr", "attr2") + (("vars-element", "vars-attr") if FORMSRC[n][0] == "with" else ()))


def expected_args(kind, arg, body, ctx):
    """the meaning of a construct by means of the corresponding Python statement"""
    arg = arg.replace("&gt;", ">").strip()
    ns = dict(ctx)
    out = ns["_out"] = []
    if kind == "def":
        code = "def %s:\n  return 'F'\n_out.append(str(f()))\n" % (arg if "(" in arg else arg + "()")
    else:
        import re
        names = re.findall(r"\$\{(\w+)\}", body)
        emit = "_out.append(%r)" % "t"
        if names:
            emit = "; ".join("_out.append(str(%s))" % n for n in names)
        elif "$" in body:
            emit = "_out.append(str(%s))" % body[1:]
        arg1 = " ".join(arg.split("\n"))
        if kind == "for":
            code = "for %s: %s" % (arg1, emit)
        elif kind == "with":
            code = arg1.rstrip("; ") + "\n" + emit
        elif kind == "if":
            code = "if (%s): %s" % (arg1, emit)
        else:
            code = "if not (%s): %s" % (arg1, emit)
    exec(code, ns)
    return tk.escape("".join(out))


def run_args(case):
    n, form = case
    kind, arg, body = FORMSRC[n]
    body = "F" if body is None else body
    attr = tk.ELEM_ATTR[kind]
    src = {"element": '<html><py:%s %s="%s">%s</py:%s>' % (kind, attr, arg, body, kind),
           "attr": '<html><b py:%s="%s">%s</b>' % (kind, arg, body),
           "attr2": '<html><b id="1" py:%s="%s" k="${w}" py:strip="True">%s</b>' % (kind, arg, body),
           "vars-element": '<html><py:vars names="%s">%s</py:vars>' % (arg, body),
           "vars-attr": '<html><b py:strip="" py:vars="%s">%s</b>' % (arg, body)}[form]
    src += ("${f()}" if kind == "def" else "") + "</html>"
    t = py.load1(src)
    for ctx in SRC_CTX:
        want = expected_args(kind, arg, body, ctx)
        got = py.render(t, ctx)
        core.outcome(got)
        if form == "attr":
            got = got[0], got[1].replace("<b>", "").replace("</b>", "")
        if got != ("ok", "<html>%s</html>" % want):
            return "%s with %r gives %r, expected %r" % (src, ctx, got, want)


# ------------------------------------------------------------- white space within arguments
TOKENS = [("for", "a in L"), ("for", "a , b in P"), ("for", "( a , b ) in P"), ("for", "i , ( a , b ) in enumerate ( P )"), ("for", "a in [ 1 , 2 ]"),
          ("for", "a in L or [ 7 ]"), ("with", "a = 1"), ("with", "a = 1 ; b = a + 1"), ("with", "a , b = 1 , 2"), ("with", "a = ( 1 , 2 )"),
          ("def", "f"), ("def", "f ( )"), ("def", "f ( a = 1 )"), ("def", "f ( a = ( 1 , 2 ) , * b )"), ("def", "f ( a = w , ** b )"), ("def", "f ( * , a = 2 )"),
          ("if", "w"), ("if", "not w"), ("if", "( w )"), ("if", "w and L"), ("unless", "w or L"), ("unless", "not ( w )"),
          ("content", "w"), ("content", "w or L"), ("content", "[ w , L ]"), ("replace", "( w , L )"), ("replace", "len ( L )"), ("strip", "w or L"), ("strip", "not ( w )"),
          ("attrs", "{ 'a' : w }"), ("attrs", "w and { 'a' : 1 }"), ("attrs", "dict ( a = L )")]
SPACES = ("", " ", "\t", "  ", "\n", " \n\t")


def gen_spacing(most):
    def gen(choose):
        n = choose(len(TOKENS))
        kind, tokens = TOKENS[n][0], TOKENS[n][1].split()
        gaps, depth, left = [], 0, most
        for i in range(len(tokens) + 1):
            before, after = (tokens[i - 1] if i else ""), (tokens[i] if i < len(tokens) else "")
            if before in tuple("([{"):
                depth += 1
            # the in of a loop is recognised by the white space around it
            words = before[-1:].isalnum() and after[:1].isalnum() or kind == "for" and "in" in (before, after)
            options = [s for s in SPACES if (s or not words) and (depth or "\n" not in s or (kind in ("if", "unless", "content", "replace", "strip", "attrs") and (not before or not after)))]
            usual = " " if words else ""
            if left and choose((0, 1)):
                left -= 1
                gaps.append(choose([s for s in options if s != usual]))
            else:
                gaps.append(usual)
            if after in tuple(")]}"):
                depth -= 1
        return n, tuple(gaps), choose(("element", "attr") if kind in tk.ELEM_ATTR else ("attr",))
    return gen


_canonical = {}


def spaced_source(n, gaps, form):
    kind, tokens = TOKENS[n]
    tokens = tokens.split()
    arg = "".join(g + t for g, t in zip(gaps, tokens + [""]))
    body = "F" if kind == "def" else "".join("${%s}" % v for v in "iab" if v in tokens and kind in ("for", "with")) + "t"
    if form == "element":
        src = '<py:%s %s="%s">%s</py:%s>' % (kind, tk.ELEM_ATTR[kind], arg, body, kind)
    else:
        src = '<b k="${w}" py:%s="%s">%s</b>' % (kind, arg, body)
    return "<html>%s%s</html>" % (src, "${f()}" if kind == "def" else "")


def spaced_results(src):
    t = py.load1(src)
    return [py.render(t, ctx) for ctx in SRC_CTX]


def run_spacing(case):
    n, gaps, form = case
    src = spaced_source(n, gaps, form)
    if (n, form) not in _canonical:
        _canonical[n, form] = want = spaced_results(spaced_source(n, ("",) + (" ",) * (len(TOKENS[n][1].split()) - 1) + ("",), form))
        assert all(r[0] == "ok" for r in want), want
    for got, want, ctx in zip(spaced_results(src), _canonical[n, form], SRC_CTX):
        core.outcome(got)
        if got != want:
            return "%r with %r gives %r, but with other spacing %r" % (src, ctx, got, want)


# ------------------------------------------------------------- constructs on one element against nested elements
USES = ["", "${f()}", "[${f('z')}${f(a=5)}]", "${i}${y}", '<py:def function="g">${f()}</py:def>${g()}',
        '<q py:for="z in [1, 2]">${f()}</q>', '<py:block name="ob">${f()}</py:block>', '<py:if test="w"><u t="${f()}"/></py:if>']
PLACES = ["%s", '<p>%s</p>', '<py:if test="1 == 1">%s</py:if>', '<py:def function="od">%s</py:def>${od()}', '<py:block name="pb">%s</py:block>']
ARG_TEXT = {"if": "w", "unless": "u", "for": "i in L", "with": "y='<y>'", "block": "bl", "def": "f(a='d')"}


def gen_equal(choose):
    kinds = tuple(k for k in OUTER if choose((0, 1)))
    if len(kinds) < 2:
        return kinds, (), choose(("reversed", "rotated")), "", "%s"
    deep = core.TIER == "thorough"
    return (kinds, choose(INNER if deep else INNER[:4:3]), choose(("reversed", "rotated")), choose(USES if "def" in kinds else ["", "${i}${y}"]),
            choose(PLACES))


def run_equal(case):
    kinds, inner, form, use, place = case
    attrs = ['py:%s="%s"' % (k, ARG_TEXT[k]) for k in kinds]
    attrs = attrs[::-1] if form == "reversed" else attrs[1:] + attrs[:1]
    own = " ".join('py:%s="%s"' % kv for kv in inner)
    body = '<b id="$i-$a" %s %s>k&amp;${i}${y}${a}</b>'
    element = body % (own, "")
    for k in reversed(kinds):
        element = '<py:%s %s="%s">%s</py:%s>' % (k, tk.ELEM_ATTR[k], ARG_TEXT[k], element, k)
    sources = ["<html>(%s)</html>" % (place % (x + ";" + use)) for x in (body % (" ".join(attrs), own), element)]
    a, b = [py.load1(x) for x in sources]
    for ctx in contexts(kinds, inner):
        ra, rb = py.render(a, ctx), py.render(b, ctx)
        core.outcome(ra)
        if ra != rb:
            return "%s\n  gives    %r\n%s\n  gives    %r\nwith %r" % (sources[0], ra, sources[1], rb, ctx)


# ------------------------------------------------------------- arguments of the innermost constructs
INNER_ARGS = {
    "strip": ["", " ", "\n", "\t\n ", "0", " 0 ", "1", "None", "False", "True", "''", "'x'", "w", " w", "not w", "w or L", "(w and\n L)", "[]", "[0]", "L",
              "w == 1", "w &gt; 0", "(lambda: w)()", "not not w", "w if L else 1"],
    "content": ["'<'", " w", "w ", "None", "0", "''", "w or L", "(w,\n L)", "w if L else 5", "[w]", "not w", "(lambda q: q)(w)", "w &gt; 0", "{'a': w}", "1,2"],
}
INNER_ARGS["replace"] = INNER_ARGS["content"]


def gen_inner_args(choose):
    kind = choose(sorted(INNER_ARGS))
    return kind, choose(INNER_ARGS[kind]), choose(("b", "attrs", "if", "for", "script"))


def run_inner_args(case):
    kind, arg, form = case
    tag, ctl, wrap = {"b": ("b", "", "%s"), "attrs": ("b", "", "%s"), "if": ("b", ' py:if="1 == 1"', "%s"), "for": ("b", ' py:for="z in \'xy\'"', "%s"),
                      "script": ("script", "", "%s")}[form]
    attr = ' k="1" m="${w}"' if form == "attrs" else ""
    src = '<html><%s%s%s py:%s="%s">x</%s></html>' % (tag, attr, ctl, kind, arg, tag)
    t = py.load1(src)
    for ctx in SRC_CTX:
        expr = arg.replace("&gt;", ">").strip()
        value = True if not expr else eval(expr, dict(ctx))
        text = tk.escape(str(value))
        start = "<%s%s>" % (tag, attr.replace("${w}", str(ctx["w"])))
        if kind == "strip":
            want = "x" if value else start + "x</%s>" % tag
        else:
            want = text if kind == "replace" else start + text + "</%s>" % tag
        want = "<html>%s</html>" % (want * (2 if form == "for" else 1))
        got = py.render(t, ctx)
        core.outcome(got)
        if got != ("ok", want):
            return "%s with %r gives %r, expected %r" % (src, ctx, got, want)


# ------------------------------------------------------------- conditions
# names that look like constants, for which every value is tried
LOOKALIKE = ["FALSE", "TRUE", "true", "false", "none", "None_", "null", "undefined", "no", "yes", "off", "on", "e", "j", "x0", "_", "__",
             "O", "l", "NaN", "inf", "bool", "all", "any", "not_", "notw", "andw", "iff", "w"]
LOOKFORMS = ["%s", " %s", "(%s)", "not %s", "%s is None", "%s == 0", "%s and 1", "0 or %s", "bool(%s)" , "[%s][0]", "(%s,)", "%s or %s", "not(%s)", "%s if %s else 0", "f'{%s}'"]
LOOKVALUES = [0, 1, "", "x", None, [], [0]]


def gen_conditions(choose):
    from mc.c09 import MORE, TRUES, FALSES, PARTLY
    what = choose(("if", "unless", "strip"))
    if choose((0, 1)):
        return what, (choose(LOOKALIKE), choose(LOOKFORMS))
    return what, choose(MORE + TRUES + FALSES)


def run_conditions(case):
    what, e = case
    name = None
    if not isinstance(e, str):
        name, form = e
        e = form.replace("%s", name)
        if name == "bool" and "bool(" in e:
            return None
    a = e.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;").replace("$", "$$")
    forms = {"if": ('<py:if test="%s">x</py:if>', '<b py:if="%s">x</b>'), "unless": ('<py:unless test="%s">x</py:unless>', '<b py:unless="%s">x</b>'),
             "strip": ('<b py:strip="%s">x</b>', '<b k="1" py:strip="%s"><i/>x</b>')}[what]
    outs = {"if": (("x", ""), ("<b>x</b>", "")), "unless": (("", "x"), ("", "<b>x</b>")),
            "strip": (("x", "<b>x</b>"), ("<i></i>x", '<b k="1"><i></i>x</b>'))}[what]
    for form, out in zip(forms, outs):
        t = py.load1("<p>" + form % a + "</p>")
        for v in LOOKVALUES if name else (0,):
            truth = eval(e.strip() if "\n" not in e else "(%s\n)" % e, {name: v} if name else {})
            want = "<p>%s</p>" % out[0 if truth else 1]
            got = py.render(t, {name: v} if name else {})
            core.outcome(got)
            if got != ("ok", want):
                return "%s with %s = %r gives %r, expected %r" % (form % a, name, v, got, want)


# ------------------------------------------------ every element
def run_elements(case):
    return py.compare({"t": html.tag_nodes(case)}, "t", html.contexts(("<v>",)))


# constructs and an attribute of the same name, and every other one
def gen_plain_attrs(choose):
    return choose(html.ATTRS), choose(("if", "unless", "for", "with", "def", "block", "strip", "content", "replace", "attrs", "all")), choose((0, 1)), choose(("static", "dynamic", "novalue"))


def run_plain_attrs(case):
    name, ctl, order, value = case
    nodes = html.tag_nodes(("p", ctl, "static"))
    node = list(nodes[0][4])
    node[1] = el("p", ((name, html.VALUES[value]),), html.CTLS[ctl], (("t", "x"), ("n", "v")))
    nodes = (el("html", (), (), node),)
    src = tk.source(nodes)
    if order:
        # the plain attribute before the constructs or after them
        m = re.match(r"(<html>1<p)( [^>]*?)(( py:\w+=\"[^\"]*\")+)(>.*)$", src, re.S)
        src = m.group(1) + m.group(3) + m.group(2) + m.group(5)
    t = py.load1(src)
    for ctx in html.contexts(("<v>",)):
        got, want = py.render(t, ctx), tk.model_render({"t": nodes}, "t", ctx)
        core.outcome(got)
        if got != want:
            return "%s\nwith %r\n  gives    %r\n  expected %r" % (src, ctx, got, want)


# ------------------------------------------------ constructs without a value
VALUELESS = {"strip": "x&lt;A&gt;<br />", "content": None, "attrs": None, "with": None, "vars": None}
NOTHING = ("", "=''", '=""', "=' '", '="\n\t"')


def gen_valueless(choose):
    k = choose(sorted(VALUELESS))
    others = choose([(), ("if='1'",), ("for='i in (1, 2)'",), ("with='a=\"q\"'",), ("strip=''",), ("strip",), ("attrs",), ("content", "vars"), ("attrs", "strip")])
    return k, choose(NOTHING[:3] if k in ("content", "attrs") else NOTHING), others, choose(("p", "script")), choose(("before", "after")), choose((0, 1))


def run_valueless(case):
    """strip without a value removes the tags, the other constructs without a value do nothing"""
    k, v, others, tag, where, chars = case
    if k in [o.split("=")[0] for o in others]:
        return None
    form = k + v
    attrs = [form] + list(others) if where == "before" else list(others) + [form]
    plain = " b='2' c"
    inner = "x$a<br/>" if tag == "p" else "x$a"
    src = "<r><%s%s %s>%s</%s></r>" % (tag, plain, " ".join("py:" + a for a in attrs), inner, tag)
    value = "q" if "with='a=\"q\"'" in others else "&lt;A&gt;" if chars else "1"
    body = "x%s%s" % (value, "<br />" if tag == "p" else "")
    if k == "strip" or any(o.startswith("strip") for o in others):
        want = body
    else:
        want = '<%s b="2" c="">%s</%s>' % (tag, body, tag)
        want = want, want.replace(' c=""', " c")
    want = [w * (2 if any(o.startswith("for") for o in others) else 1) for w in ((want,) if isinstance(want, str) else want)]
    got = py.render(py.load1(src), {"a": "<A>" if chars else 1})
    core.outcome(got)
    if got not in [("ok", "<r>%s</r>" % w) for w in want] and got not in ["<r>%s</r>" % w for w in want]:
        return "%s\n  gives    %r\n  expected one of %r" % (src, got, want)


def suites(tier):
    names = sorted(FORMS)
    deep = tier == "thorough"
    small = [n for n in names if n not in ("ife0", "unlessa0", "withe1", "fore1", "strip0")]
    rv = [
        core.Suite("arguments", gen_args, run_args, "argument forms of each construct as element and attribute"),
        core.Suite("conditions", gen_conditions, run_conditions, "conditions of if, unless and strip: constant expressions, and names that look like constants"),
        core.Suite("spacing", gen_spacing(2 if deep else 1), run_spacing, "every kind of white space between any tokens of the arguments"),
        core.Suite("inner_arguments", gen_inner_args, run_inner_args, "argument forms of strip, content and replace"),
        core.Suite("valueless", gen_valueless, run_valueless, "constructs without a value or with nothing in it"),
        core.Suite("equivalence", gen_equal, run_equal, "subsets of the constructs as attributes in two orders, against nested elements, with uses of the definition after it"),
        core.Suite("elements", html.gen_tags(forms=("static", "nested")), run_elements, "every HTML element with every construct"),
        core.Suite("plain_attributes", gen_plain_attrs, run_plain_attrs, "every HTML attribute next to every construct"),
        core.Suite("combinations", gen_combo(False), run_combo,
                   "64 subsets of the constructs on one element x 13 innermost sets x source forms"),
        core.Suite("combinations_in", gen_combo(True), run_combo, "the same within another construct"),
        core.Suite("nesting2", gen_nest(2, names, sorted(LEAVES)), run_nest,
                   "nestings of depth 2, with contents that output nothing too"),
        core.Suite("nesting3", gen_nest(3, names if deep else small), run_nest, "nestings of depth 3"),
        core.Suite("siblings", gen_nest(3, names if deep else small), run_sib, "two constructs side by side in a third"),
        sizes.suite("loop inner_loop rows loop_strip loop_def attrs_dict depth_if depth_with depth_def depth_for depth_strip depth_block ifs strips contents with parameters recursion defs blocks element_for element_ifs name_def", tier),
    ]
    if deep:
        rv.append(core.Suite("nesting4", gen_nest(4, small), run_nest, "nestings of depth 4"))
    return rv
