"""C09: optimisation and size never change the output."""
from mc import core, py, tk
from mc.c01 import el, Html

# pieces: (optimisable, the same without anything to optimise)
N = ("t", "a<&")


def cond(const, dyn):
    return (lambda kids: [("c", "if", const, (), kids)], lambda kids: [("c", "if", dyn, (), kids)])


PIECES = {
    "text": ([("t", "a<&")], [("x", "ta")]),
    "space": ([("t", " \n")], [("x", "sp")]),
    "el": ([el("b", (("k", (("t", "<"),)),), (), (N,))], [el("b", (("k", (("t", ""), ("x", "lt"))),), (), (("x", "ta"),))]),
    "void": ([el("br")], [("x", "lit('<br />')")]),
    "comment": ([("raw", "<!--! -->", "")], []),
    "literal": ([("x", "literal('<i>')")], [("x", "lit('<i>')")]),
    "literalq": ([("x", "literal('&\"')")], [("x", "lit('&' + q)")]),
    "literalv": ([("x", "literal(v)")], [("x", "lit(v)")]),
    "string": ([("x", "'<s>'")], [("x", "s")]),
    "number": ([("x", "5")], [("x", "n5")]),
    "none": ([("x", "None")], [("x", "no")]),
    "expr": ([("x", "v")], [("x", "idn(v)")]),
    "call": ([("x", "fn()")], [("x", "idn(fn())")]),
    "empty": ([("x", "''")], [("x", "idn('')")]),
    "attrs": ([el("p", (("a", (("t", "1"),)), ("b", (("x", "v"),)), ("c", (("t", "&"),))), (), ())],
              [el("p", (("a", (("t", "1"),)), ("c", (("t", "&"),)), ("b", (("x", "idn(v)"),))), (), ())]),
    "attrlit": ([el("p", (("a", (("x", "literal('<')"),)), ("b", (("t", "-"), ("x", "literal('<')")))), (), ())],
                [el("p", (("a", (("x", "lit('<')"),)), ("b", (("t", "-"), ("x", "lit('<')")))), (), ())]),
}
TRUES = ["1", "True", "'x'", "not 0", "not not 5", "[0]", "not None", "not ''", "(1,)", "{'a': 0}", "0.5", "-1", "b'x'", "not []", "1j"]
FALSES = ["0", "False", "None", "''", "not 1", "not not 0", "[]", "()", "{}", "0.0", "b''", "not 'x'", "not [0]", "-0", "0j"]

# other constant expressions
MORE = ["1 == 1", "1 == 1 == 2", "1 == 1 != 2", "1 != 1", "1 < 2", "1 < 2 < 2", "2 > 1 > 0", "1 in (1,)", "1 not in [1]", "'a' in 'bab'", "None is None", "1 is None", "None is not None", "0 or 1", "0 or ''",
        "1 and 0", "1 and 2", "not 1 or 2", "not (1 and 0)", "not 1 == 1", "not 1 == 2", "1 if 0 else 0", "0 if 0 else 'x'", "1 - 1", "1 + -1", "2 * 0", "'' 'a'", "'' ''", "f''", "f'x'", "f'{0}'", "...", "lambda: 0",
        "{0}", "{*()}", "[*()]", "(*'',)", "{**{}}", "[] + [0]", "[0][0]", "(1, 0)[1]", "'' * 5", "~0", "~-1", "+0", "+1", "- -0", "0x0", "0b1", "0_0", "1_0", "0e5", "1e-999", "-0.0", "'\\0'", "b''", "b'\\0'", "r''", "u''", "'''x'''", "''''''",
        "(0)", "(())", "((),)", "[[]]", "[None]", "{None: 0}", "{(): ()}", "True == 1", "True is None", "not True", "not False", "not not ()", "not -1", "not 0.0", "not {}", "not {0}", "-True", "True - True", "[i for i in ()]",
        "1if 1else 0", "not(0)", " 1", "1 ", "0 #1", "1\n", "(0\n)", "\t0", "not\t0"]


# a condition of which only a part is constant, and the same with the constant made opaque; nope is bound nowhere
PARTLY = [(e.replace("@", c), e.replace("@", o)) for e in (
    "@ or nope", "nope or @", "@ and nope", "nope and @", "not (@ or nope)", "(nope, @)", "[nope] and @", "{'k': nope} or @", "v or @", "v and @",
    "@ or v", "@ and v", "not v or @", "(v and @) or @", "@ if nope else @", "nope if @ else 5", "v if @ else nope", "@ == nope", "@ != v", "@ in (1, nope)",
    "1 < @ < nope", "fn() or @", "fn() and @", "f'{@}'", "f'{nope}' or @", "(@ or (lambda: nope)) and 1", "[nope for i in L if @]", "(lambda: @)()", "not @ or not @",
    "@ is None", "@ + 0", "-@", "[@][0]", "L[@]") for c, o in (("1", "T"), ("0", "F"))]


def ctxs():
    from markupsafe import Markup
    base = dict(ta="a<&", sp=" \n", lt="<", q='"', s="<s>", n5=5, no=None, T=1, F=0,
                idn=lambda x: x, lit=lambda x: x if hasattr(x, "__html__") else Markup(x), L=[1, 2])
    return [dict(base, v=v, fn=lambda v=v: v) for v in ("<v>", Markup("<m>"), Html(), 7, None, "")]


CTXS = None


def prepare():
    global CTXS
    CTXS = ctxs()


SHAPES = ["root", "def", "for", "with", "block", "if", "iftrue", "strip", "script", "attr", "defs"]


def shape(nodes, s):
    k = tuple(nodes)
    return {
        "root": [el("html", (), (), k)],
        "def": [el("html", (), (), (("c", "def", ("f", None), (), k), ("x", "f()"), ("x", "f()")))],
        "for": [el("html", (), (), (("c", "for", ("i", "L"), (), k),))],
        "with": [el("html", (), (), (("c", "with", (("z", "1"),), (), k),))],
        "block": [el("html", (), (), (("c", "block", "bl", (), k),))],
        "if": [el("html", (), (), (("c", "if", "T", (), k),))],
        "iftrue": [el("html", (), (), (("c", "if", "1", (), k), ("x", "v"), ("t", "z")))],
        "strip": [el("html", (), (), (el("p", (), (("strip", "True"),), k), el("p", (), (("strip", "T"),), k)))],
        "script": [el("html", (), (), (el("div", (("q", (("x", "v"), ("t", "&"))),), (), k),))],
        "attr": [el("html", (), (), k + (el("p", (("q", (("t", "-"),)),), (), k),))],
        "defs": [el("html", (), (), (("c", "if", "T", (), (("c", "def", ("f", (("p", None),)), (), k + (("x", "p"),)), ("x", "f('<')"))),))],
    }[s]


def both(nodes_o, nodes_p):
    """the two templates render the same on the real code, and as the model says"""
    a, b = {"t": tuple(nodes_o)}, {"t": tuple(nodes_p)}
    ta, tb = py.load_templates(a)("t"), py.load_templates(b)("t")
    for ctx in CTXS:
        ra, rb = py.render(ta, ctx), py.render(tb, ctx)
        want = tk.model_render(a, "t", ctx)
        core.outcome(ra)
        if not ra == rb == want:
            return "%s\n  gives    %r\n%s\n  gives    %r\n  expected %r\nwith v=%r" % (
                tk.source(nodes_o), ra, tk.source(nodes_p), rb, want, ctx["v"])


def gen_seq(n, names, shapes):
    def gen(choose):
        return choose(shapes), tuple(choose(names) for _ in range(n))
    return gen


def run_seq(case):
    s, seq = case
    o = [x for k in seq for x in PIECES[k][0]]
    p = [x for k in seq for x in PIECES[k][1]]
    return both(shape(o, s), shape(p, s))


def gen_cond(choose):
    v = choose((1, 0))
    return (choose(("if", "unless")), v, choose(TRUES if v else FALSES), choose(("element", "attr", "both")),
            choose(("text", "expr", "literal", "el", "def", "with", "for", "nested", "block", "attrs")), choose(SHAPES))


def gen_more(shapes):
    def g(choose):
        c = choose(MORE)
        return choose(("if", "unless")), 1 if eval(c.strip()) else 0, c, choose(("element", "attr", "both")), choose(("expr", "def", "nested")), choose(shapes)
    return g


def run_cond(case):
    kind, value, const, form, inner, s = case
    rv = []
    for c in (const, "T" if value else "F"):
        kids = {"def": (("c", "def", ("g", (("q", "1"),)), (), (N, ("x", "q"))), ("x", "g()")),
                "with": (("c", "with", (("y", "v"),), (), (("x", "y"), N)),),
                "for": (("c", "for", ("j", "L"), (), (("x", "j"), N)),),
                "block": (("c", "block", "nb", (), (N, ("x", "v"))),),
                "nested": (("c", "if", const, (), (N, ("c", "unless", const, (), (("x", "v"),)))),)}.get(inner)
        if kids is None:
            kids = tuple(PIECES[inner][0])
        if form == "element":
            node = ("c", kind, c, (), kids)
        elif form == "attr":
            node = el("i", (("k", (("x", "v"),)),), ((kind, c),), kids)
        else:
            node = el("i", (), (("if", c if kind == "if" else "T"), ("unless", c if kind == "unless" else "F"), ("strip", c)), kids)
        rv.append(shape([N, node, N], s))
    return both(*rv)


# ------------------------------------------------------------------- sizes
PATTERNS = {
    "text-expr": lambda i: [("t", "%d&" % i), ("x", "v")], "expr": lambda i: [("x", "v")], "expr-i": lambda i: [("x", "n5 + %d" % i)],
    "literal": lambda i: [("x", "literal('<%d>')" % i)], "text": lambda i: [("t", "<%d" % i)],
    "el": lambda i: [el("b", (("k%d" % i, (("t", "%d" % i),)),), (), (("x", "v"),))],
    "attr": lambda i: [el("b", (("k", (("x", "v"), ("t", "%d" % i))),), (), ())],
    "battr": lambda i: [el("b", (("k", (("x", "v"),)),), (), ())],
    "if1": lambda i: [("c", "if", "1", (), (("t", "%d" % i), ("x", "v")))],
    "ifT": lambda i: [("c", "if", "T", (), (("x", "v"), ("t", "%d" % i)))],
    "three": lambda i: [("x", "v"), ("t", "x"), ("x", "s")],
    "mixattr": lambda i: [el("p", (("k", (("x", "v"), ("x", "s"), ("t", "-"), ("x", "v"))),), (), (("x", "v"),))],
}


def gen_size(sizes, shapes):
    def gen(choose):
        return choose(sorted(PATTERNS)), choose(sizes), choose(shapes)
    return gen


def run_size(case):
    pat, n, s = case
    nodes = shape([x for i in range(n) for x in PATTERNS[pat](i)], s)
    t = py.load_templates({"t": tuple(nodes)})("t")
    for ctx in CTXS[:2]:
        got = py.render(t, ctx)
        want = tk.model_render({"t": tuple(nodes)}, "t", ctx)
        core.outcome(got)
        if got != want:
            d = next((i for i, (x, y) in enumerate(zip(got[1], want[1])) if x != y), min(len(got[1]), len(want[1])))
            return "%d x %s in %s differs at %d: ...%r, expected ...%r" % (n, pat, s, d, got[1][max(0, d - 40):d + 60], want[1][max(0, d - 40):d + 60])


def gen_partly(choose):
    return choose(("if", "unless", "strip", "content", "text", "attr")), choose(len(PARTLY)), choose(("element", "attr")), choose(("root", "def", "iftrue", "strip"))


def run_partly(case):
    kind, n, form, s = case
    rv = []
    for c in PARTLY[n]:
        kids = (N, ("x", "v"))
        if kind == "text":
            node = ("x", c)
        elif kind == "attr":
            node = el("i", (("k", (("x", c),)), ("l", (("t", "&"), ("x", c)))), (), kids)
        elif kind in ("if", "unless") and form == "element":
            node = ("c", kind, c, (), kids)
        else:
            node = el("i", (("k", (("x", "v"),)),) if form == "attr" else (), ((kind, c),), kids)
        rv.append(shape([N, node, N], s))
    return both(*rv)


THRESHOLD = {"if1": lambda t: [("c", "if", "1", (), (("t", t),))], "literal": lambda t: [("x", "literal('%s')" % t)],
             "string": lambda t: [("x", "'%s'" % t)], "el": lambda t: [el("b", (), (), (("t", t),))],
             "strip": lambda t: [el("b", (), (("strip", "1"),), (("t", t),))], "attr": lambda t: [el("b", (("k", (("t", t),)),), (), ())]}


def gen_threshold(powers):
    """texts whose lengths add up to more than a power of two, followed by a short one"""
    def gen(choose):
        return choose(sorted(THRESHOLD)), choose(powers), choose(((3, 3, 0), (4, 0, 0), (0, 4, 0), (3, 0, 3), (5, 3, 5), (0, 0, 5))), choose(("root", "def", "for"))
    return gen


def run_threshold(case):
    kind, power, parts, s = case
    nodes = []
    for i, q in enumerate(parts):
        nodes += THRESHOLD[kind]("abc"[i] * (2 ** power * q // 4 + 1 + i))
        if kind == "el":
            nodes.append(("t", "z"))
    ts = {"t": tuple(shape(nodes + [("x", "v"), ("t", "end")], s))}
    r = py.compare(ts, "t", CTXS[:1])
    return r and r[:500] + " ... " + r[-200:]


def gen_parts(sizes):
    """an attribute with n parts, an element with n attributes, a text of n characters, nesting n deep ..."""
    def gen(choose):
        return choose(("parts", "parts-tr", "attributes", "dynattributes", "chars", "attrchars", "comment", "depth", "defs", "blocks", "names",
                       "params", "nest-with", "nest-def", "nest-if", "lines", "exprlen", "literallen")), choose(sizes)
    return gen


def run_parts(case):
    kind, n = case
    ctx = CTXS[0]
    kw = {}
    if kind in ("parts", "parts-tr"):
        parts = tuple(p for i in range(n) for p in (("t", "%d&" % i), ("x", "v")))
        nodes = [el("p", (("title", parts or (("t", ""),)),), (), ())]
        kw["translatable"] = kind == "parts-tr"
    elif kind == "attributes":
        nodes = [el("p", tuple(("a%d" % i, (("t", "%d<" % i),)) for i in range(n)), (), ())]
    elif kind == "dynattributes":
        nodes = [el("p", tuple(("a%d" % i, (("x", "v"),)) for i in range(n)), (), ())]
    elif kind == "chars":
        nodes = [("t", "x<" * n)]
    elif kind == "attrchars":
        nodes = [el("p", (("k", (("t", "y&" * n), ("x", "v"))),), (), ())]
    elif kind == "comment":
        nodes = [("raw", "<!--%s-->" % ("c<" * n),) * 1 + ("<!--%s-->" % ("c<" * n),)]
    elif kind == "depth":
        nodes = [("x", "v")]
        for i in range(min(n, 120)):
            nodes = [el("d", (), (), nodes)]
    elif kind == "defs":
        nodes = [x for i in range(n) for x in (("c", "def", ("f%d" % i, None), (), (("t", "%d" % i),)), ("x", "f%d()" % i))]
    elif kind == "blocks":
        nodes = [("c", "block", "b%d" % i, (), (("t", "%d" % i), ("x", "v"))) for i in range(n)]
    elif kind == "names":
        nodes = [("x", "n%d" % i) for i in range(n)]
        ctx = dict(ctx, **{"n%d" % i: i for i in range(n)})
    elif kind == "params":
        nodes = [("c", "def", ("f", tuple(("p%d" % i, "%d" % i) for i in range(n))), (), tuple(("x", "p%d" % i) for i in range(n))), ("x", "f()")]
    elif kind in ("nest-with", "nest-def", "nest-if"):
        nodes = [("x", "v"), ("t", "&")]
        for i in range(min(n, 60)):
            nodes = {"nest-with": [("c", "with", (("w%d" % i, "v"),), (), tuple(nodes + [("x", "w%d" % i)]))],
                     "nest-def": [("c", "def", ("f%d" % i, None), (), tuple(nodes)), ("x", "f%d()" % i)],
                     "nest-if": [("c", "if", ("T", "1")[i % 2], (), tuple(nodes + [("x", "v")]))]}[kind]
    elif kind == "lines":
        nodes = [("t", "\n" * n), ("x", "v"), ("t", "\n" * n)]
    elif kind == "exprlen":
        nodes = [("x", "'%s' + v" % ("<" * n))]
    elif kind == "literallen":
        nodes = [("x", "literal('%s')" % ("<b>" * n))]
    ts = {"t": (el("html", (), (), [("t", "s")] + nodes + [("t", "e")]),)}
    return py.compare(ts, "t", [ctx], **kw)


def suites(tier):
    deep = tier == "thorough"
    names = sorted(PIECES)
    sizes = list(range(0, 12)) + [61, 62, 63, 64] + [n for c in (82, 84, 125, 167, 250, 375, 500, 512, 750) for n in range(c - 2, c + 4)]
    if deep:
        sizes = list(range(0, 800))
    big = [0, 1, 2, 16, 62, 63, 100, 124, 125, 126, 127, 128, 129, 249, 250, 251, 252, 255, 256, 257, 300, 499, 500, 501, 512]
    if deep:
        big = list(range(0, 520)) + [1000, 1023, 1024, 1025]
    return [
        core.Suite("conditions", gen_cond, run_cond, "constant conditions against dynamic ones"),
        core.Suite("constants", gen_more(SHAPES if deep else ("root", "def")), run_cond, "%d other constant expressions as conditions" % len(MORE)),
        core.Suite("partly_constant", gen_partly, run_partly, "conditions and expressions of which a part is constant"),
        core.Suite("thresholds", gen_threshold(range(4, 24) if deep else range(4, 21)), run_threshold, "constant outputs whose lengths add up to more than each power of two"),
        core.Suite("sequences2", gen_seq(2, names, SHAPES), run_seq, "sequences of 2 of %d pieces in %d shapes" % (len(names), len(SHAPES))),
        core.Suite("sequences3", gen_seq(3, names, SHAPES if deep else ("root", "def", "iftrue")), run_seq, "sequences of 3 pieces"),
        core.Suite("run_lengths", gen_size(sizes, SHAPES if deep else ("root", "def", "for", "strip")), run_size,
                   "run lengths of consecutive outputs"),
        core.Suite("sizes", gen_parts(big), run_parts, "sizes of texts, attributes, nestings, sets of definitions ..."),
    ]
