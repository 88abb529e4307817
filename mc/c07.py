"""C07: inheritance - the most derived definition wins."""
from mc import c05, core, py, sizes, tk
from mc.c01 import el

NAMES = ("x", "y")


def body(level, name, call=None, nested=False):
    kids = [("t", "%s@%d:" % (name, level)), ("x", "v")]
    if call:
        kids += [("t", "("), ("x", "%s()" % call), ("t", ")")]
    if nested:
        kids += [("t", "["), ("c", "block", "z", (), (("t", "z@%d" % level),)), ("t", "]")]
    return tuple(kids)


# how a template defines a name
DEFS = {
    "block": lambda l, n: [("c", "block", n, (), body(l, n))],
    "attr": lambda l, n: [el("b", (("k", (("x", "v"),)),), (("block", n),), body(l, n))],
    "def": lambda l, n: [("c", "def", (n, None), (), body(l, n))],
    "defp": lambda l, n: [("c", "def", (n, (("p", "v"), ("q", "'%d'" % l)),), (), body(l, n) + (("x", "p"), ("x", "q")))],
    "calls": lambda l, n: [("c", "block", n, (), body(l, n, "y" if n == "x" else "w"))],
    "defcalls": lambda l, n: [("c", "def", (n, None), (), body(l, n, "y" if n == "x" else "w"))],
    "nested": lambda l, n: [("c", "block", n, (), body(l, n, nested=True))],
    "with": lambda l, n: [("c", "block", n, (), (("c", "with", (("v", "'w%d'" % l),), (), body(l, n)),))],
    "if": lambda l, n: [el("b", (), (("block", n), ("if", "v")), body(l, n))],
}
BASES = {
    "blocks": lambda: [el("p", (), (), DEFS["block"](0, "x")), ("t", ","), el("q", (), (), DEFS["block"](0, "y"))],
    "nested": lambda: [("c", "block", "x", (), (("t", "x0"), ("c", "block", "y", (), (("t", "y0"),)), ("t", "x0")))],
    "def-call": lambda: [("x", "x()"), ("c", "def", ("x", None), (), body(0, "x")), ("c", "block", "y", (), (("t", "y0"), ("x", "x()")))],
    "only-calls": lambda: [("x", "x()"), ("t", ","), el("p", (("k", (("x", "y()"),)),), (), ())],
    "loop": lambda: [("c", "for", ("i", "'12'"), (), tuple(DEFS["block"](0, "x"))), ("c", "if", "v", (), tuple(DEFS["nested"](0, "y"))), ("x", "y()")],
    "def-def": lambda: DEFS["def"](0, "y") + DEFS["defcalls"](0, "x") + [el("p", (), (("content", "x()"),), ()), el("p", (), (("replace", "y()"),), ())],
    "w": lambda: [("c", "def", ("w", None), (), (("t", "w0"), ("x", "v")))] + DEFS["calls"](0, "x") + DEFS["calls"](0, "y"),
    "none": lambda: [("t", "static")],
}


def base(kind):
    return (el("html", (), (), BASES[kind]()),)


def derived(level, parent, opts, extra):
    """opts: per name how it is defined, or None; extra: further definitions"""
    kids = [("t", "\n ")]
    for n, o in zip(NAMES, opts):
        if o:
            kids += DEFS[o](level, n) + [("t", "\n")]
    if extra == "z":
        kids += [("c", "block", "z", (), (("t", "z!%d" % level),))]
    elif extra == "w":
        kids += [("c", "def", ("w", None), (), (("t", "w!%d" % level), ("x", "v")))]
    elif extra == "unused":
        kids += [("c", "block", "u", (), (("t", "u"),))]
    return (("ext", parent, tuple(kids)),)


def chain(case):
    b, levels = case
    ts = {"t0": base(b)}
    for i, (opts, extra) in enumerate(levels):
        ts["t%d" % (i + 1)] = derived(i + 1, "t%d" % i, opts, extra)
    return ts


def gen(depth, opts, extras, bases):
    def g(choose):
        return choose(bases), tuple((tuple(choose(opts) for _ in NAMES), choose(extras)) for _ in range(depth))
    return g


def run(case, order=None, funcs=("__main__", "x", "y", "z")):
    ts = chain(case)
    names = sorted(ts)
    ld = py.loader({n: tk.source(v) for n, v in ts.items()})
    for n in order or names[::-1]:
        t = ld.load(n)
        for fn in funcs:
            for ctx in (dict(v="<v>"), dict(v="")):
                got, want = py.render(t, ctx, fn), tk.model_render(ts, n, ctx, funcname=fn)
                core.outcome(got)
                if got != want:
                    return "%s\nrender %s of %s with %r\n  gives    %r\n  expected %r" % (
                        "\n".join("%s: %s" % (k, tk.source(v)) for k, v in ts.items()), fn, n, ctx, got, want)


# orders of loading and rendering
ORDER_CASES = [
    ("blocks", ((("block", None), None), ((None, "calls"), "w"))), ("nested", (((None, "block"), None), (("block", None), None))),
    ("def-call", ((("def", None), None), (("defcalls", "block"), None))), ("w", ((("nested", None), None), (("block", None), "z"))),
    ("loop", ((("nested", "nested"), "z"), ((None, "block"), "z"))), ("only-calls", ((("def", None), None), ((None, "def"), None))),
]


def gen_order(n):
    def g(choose):
        return choose(len(ORDER_CASES)), tuple((choose(("t0", "t1", "t2", "s")), choose(("__main__", "x", "y", "z"))) for _ in range(n))
    return g


def run_order(case):
    k, ops = case
    ts = chain(ORDER_CASES[k])
    # a second child of the same parent
    ts["s"] = derived(7, "t0", ("block", "def"), "z")
    ld = py.loader({n: tk.source(v) for n, v in ts.items()})
    for i, (n, fn) in enumerate(ops):
        ctx = dict(v="<%d>" % i)
        got, want = py.render(ld.load(n), ctx, fn), tk.model_render(ts, n, ctx, funcname=fn)
        core.outcome(got)
        if got != want:
            return "%r\n after %r: render %s of %s\n  gives    %r\n  expected %r" % (
                {k: tk.source(v) for k, v in ts.items()}, ops[:i], fn, n, got, want)


# any number of derived templates, each overriding one of several blocks
def gen_wide(n):
    def g(choose):
        d = choose(n)
        return tuple((choose(("block", "def", "attr")), choose((0, 1, 2))) for _ in range(d))
    return g


def run_wide(levels):
    ts = {"t0": (el("html", (), (), [("c", "block", "b%d" % i, (), (("t", "b%d" % i),)) for i in range(3)] + [("x", "b0()")]),)}
    for i, (form, k) in enumerate(levels):
        name = "b%d" % k
        ts["t%d" % (i + 1)] = (("ext", "t%d" % i, tuple(DEFS[form](i + 1, name))),)
    top = "t%d" % len(levels)
    return py.compare(ts, top, [dict(v="<")], ("__main__", "b0", "b1"))


# inheritance combined with the other parts of a template
def gen_mixed(choose):
    return (choose(("import", "importdef", "nestedimport", "with", "comment", "text", "pi")), choose(("block", "def", "attr", "with", "if")),
            choose((0, 1)), choose((0, 1)))


def run_mixed(case):
    kind, form, inbase, inchild = case
    lib = (el("lib", (), (), (("c", "def", ("f", (("a", None),)), (), (("t", "L"), ("x", "a"))), ("c", "block", "y", (), (("t", "liby"),)))),)
    use = {"import": [("x", "m.f('<')"), ("x", "m.y()")], "importdef": [("x", "m.f(v)")], "nestedimport": [("imp", "lib", "m"), ("x", "m.f(1)")],
           "with": [("c", "with", (("q", "v"),), (), (("x", "q"),))], "comment": [("raw", "<!-- c -->", "<!-- c -->"), ("raw", "<!--! c -->", "")],
           "text": [("t", "&")], "pi": [("pi", "q = v * 2"), ("x", "q")]}[kind]
    imp = [("imp", "lib", "m")] if kind.startswith("import") else []
    b = DEFS[form](0, "x")
    if inbase:
        n = b[0]
        b = [n[:-1] + (n[-1] + tuple(use),)]
    ts = {"lib": lib, "t0": (el("html", (), (), imp + b + [("c", "block", "y", (), (("t", "y"),)), ("x", "x()")]),)}
    c = DEFS[form](1, "x")
    if inchild:
        n = c[0]
        c = [n[:-1] + (n[-1] + tuple(use),)]
    ts["t1"] = (("ext", "t0", tuple(imp + c + [("raw", "<!-- dropped -->", "")])),)
    msg = py.compare(ts, "t1", [dict(v="<v>"), dict(v="")], ("__main__", "x"))
    return msg or py.compare(ts, "t0", [dict(v="<v>")], ("__main__", "x"))


# ------------------------------------------------- any construct within the templates of a chain
WHERE = ("block", "elblock", "def", "grand", "mid", "base", "mainbase", "override", "overridedef", "loop")


def inside(nodes, where):
    """templates of a chain of which one has the nodes; the last one is t1 or t2"""
    nodes = tuple(nodes)
    t0 = (el("html", (), (), (("t", "0"), ("c", "block", "X", (), (("t", "x0"),)), ("c", "block", "Y", (), (("t", "y0"),)), ("c", "def", ("Z", None), (), (("t", "z0"),)), ("x", "Z()"))),)
    ts = {"t0": t0}
    other = ("c", "block", "Y", (), (("t", "y1"),))
    new = (("c", "block", "bl0", (), (("t", "new0"), ("x", "a"))), ("c", "block", "bl1", (), (("t", "new1"), ("x", "b"))))
    if where == "block":
        ts["t1"] = (("ext", "t0", (("c", "block", "X", (), nodes),)),)
    elif where == "elblock":
        ts["t1"] = (("ext", "t0", (el("q", (("k", (("x", "a"),)),), (("block", "X"),), nodes), other)),)
    elif where == "def":
        ts["t1"] = (("ext", "t0", (("c", "def", ("Z", None), (), nodes), other)),)
    elif where == "grand":
        ts["t1"] = (("ext", "t0", (("c", "block", "X", (), (("t", "x1"),)),)),)
        ts["t2"] = (("ext", "t1", (("c", "block", "X", (), nodes),)),)
    elif where == "mid":
        ts["t1"] = (("ext", "t0", (("c", "block", "X", (), nodes),)),)
        ts["t2"] = (("ext", "t1", (other,)),)
    elif where == "base":
        ts["t0"] = (el("html", (), (), (("c", "block", "X", (), nodes), ("c", "block", "Y", (), (("t", "y0"),)))),)
        ts["t1"] = (("ext", "t0", (other,)),)
    elif where == "mainbase":
        ts["t0"] = (el("html", (), (), nodes + (("c", "block", "Y", (), (("t", "y0"),)),)),)
        ts["t1"] = (("ext", "t0", (other,)),)
    elif where == "override":
        ts["t1"] = (("ext", "t0", (("c", "block", "X", (), nodes),)),)
        ts["t2"] = (("ext", "t1", new),)
    elif where == "overridedef":
        ts["t1"] = (("ext", "t0", (("c", "def", ("Z", None), (), nodes),)),)
        ts["t2"] = (("ext", "t1", (("c", "def", ("Z", None), (), (("t", "z2"),)),) + new),)
    else:
        ts["t0"] = (el("html", (), (), (("c", "for", ("i", "[1, 2]"), (), (("c", "block", "X", (), (("t", "x0"),)),)),)),)
        ts["t1"] = (("ext", "t0", (("c", "block", "X", (), nodes),)),)
    return ts


def gen_inside(n, uses, around):
    def g(choose):
        path = tuple(choose(sorted(c05.CONS)) for _ in range(n))
        leaf = choose(uses)
        before, after = choose(around)
        case = choose(WHERE), (path, leaf, before, after)
        for t in inside(c05.build(case[1])[0][4], case[0]).values():
            tk.Limits(t)
        return case
    return g


def run_inside(case):
    where, sub = case
    ctxs = c05.CTXS
    path = [p for p in sub[0] if p not in ("el", "pi_a", "pi_b")]
    if path and path[0] == "def_named_a":
        ctxs = [c for c in ctxs if "a" not in c]
    ts = inside(c05.build(sub)[0][4], where)
    return py.compare(ts, max(ts), ctxs, normalize=c05.functions)


# ------------------------------------------------- names of any form
ODD = ("b", "a__b", "x__b", "b__", "_b", "_", "b_1", "block", "block__b", "m__block__b", "\xe9", "\u03bb_b", "match", "type", "len", "self", "context", "main", "super", "B",
       "b2", "print", "object", "name", "func", "id")


def gen_names(names, forms):
    def g(choose):
        i = choose(range(len(names)))
        j = choose(range(len(names)))
        if i == j:
            raise core.Skip()
        return names[i], names[j], choose(forms), choose(forms), choose(("extend", "both", "new", "import"))
    return g


def run_names(case):
    a, b, f, g, how = case
    ts = {"t0": (el("html", (), (), tuple(DEFS[f](0, a)) + (("t", ","),) + tuple(DEFS[g](0, b)) + (("x", "%s()" % a), ("x", "%s()" % b))),)}
    if how == "import":
        ts["t1"] = (el("html", (), (), (("imp", "t0", "m"), ("x", "m.%s()" % a), ("x", "m.%s()" % b)) + tuple(DEFS[f](1, a)) + (("x", "%s()" % a),)),)
        return py.compare(ts, "t1", [dict(v="<")], ("__main__",))
    if how == "new":
        # one of the two is in the derived one only
        ts["t0"] = (el("html", (), (), tuple(DEFS[f](0, a)) + (("x", "%s()" % a),)),)
        ts["t1"] = (("ext", "t0", tuple(DEFS[g](1, b)) + (("c", "def", (a, None), (), (("t", "["), ("x", "%s()" % b), ("t", "]"))),)),)
    else:
        ts["t1"] = (("ext", "t0", tuple(DEFS[f](1, a)) + (tuple(DEFS[g](1, b)) if how == "both" else ())),)
    return py.compare(ts, "t1", [dict(v="<")], ("__main__", a, b))


def suites(tier):
    deep = tier == "thorough"
    all_ = [None] + sorted(DEFS)
    some = [None, "block", "def", "calls", "nested"]
    rv = [
        core.Suite("mixed", gen_mixed, run_mixed, "inheritance with imports, comments, statements ..."),
        core.Suite("names", gen_names(ODD if deep else ODD[:16], ("block", "def", "attr") if deep else ("block", "def")), run_names, "pairs of names of blocks and defs, of any form of identifier"),
        core.Suite("one_level", gen(1, all_, (None, "z", "w", "unused"), sorted(BASES)), run, "all definition forms over one level"),
        core.Suite("two_levels", gen(2, all_ if deep else some, (None, "z", "w") if deep else (None, "z"), sorted(BASES) if deep else ["blocks", "nested", "def-call", "w", "loop"]),
                   run, "chains of three templates"),
        core.Suite("orders", gen_order(3 if deep else 2), run_order, "orders of loading and rendering the templates of a chain and a sibling"),
        core.Suite("inside1", gen_inside(1, c05.USES, [(x, y) for x in (None, "a", "b") for y in (None, "a", "b")]), run_inside, "one construct of a binding kind in %d places of chains of templates" % len(WHERE)),
        core.Suite("inside2", gen_inside(2, ["a", "b", "(lambda a=b: a)()"] if not deep else c05.USES, [(None, None), ("a", "b")]), run_inside, "two nested constructs in the same places"),
        core.Suite("long_chains", gen_wide((1, 2, 3, 4, 5) if deep else (1, 2, 3, 4)), run_wide, "chains of up to 5 templates, one override each"),
        sizes.suite("chain chain_def blocks defs depth_block name_def", tier),
    ]
    if deep:
        rv.append(core.Suite("three_levels", gen(3, [None, "block", "def", "calls"], (None,), ["blocks", "nested", "def-call"]), run, "chains of four templates"))
    return rv
