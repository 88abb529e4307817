"""Templates of every size: n parts, iterations, attributes, levels ...

Nothing may depend on how much of something there is."""
from mc import core, py


def el(tag, attrs=(), ctl=(), kids=()):
    return "el", tag, tuple(attrs), tuple(ctl), tuple(kids)


SIZES = (0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257)
MORE = SIZES + (300, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025)


def name(n, start="n"):
    return start + "".join("abcdefghij"[i % 10] for i in range(n))


def joined(n, f):
    return tuple(x for i in range(n) for x in f(i))


X, T = ("x", "v"), ("t", "&")


def chain(n, kind):
    """t0 is extended n times; every level replaces one of 3 blocks"""
    ts = {"t0": (el("html", (), (), tuple(("c", "block", "b%d" % i, (), (("t", "b%d" % i), X)) for i in range(3)) + (("x", "b0()"),)),)}
    for i in range(1, n + 1):
        k = "b%d" % (i % 3)
        ts["t%d" % i] = (("ext", "t%d" % (i - 1), (("c", "block", k, (), (("t", "%d" % i), X)) if kind == "block" else ("c", "def", (k, None), (), (("t", "%d" % i), X)),)),)
    ts["t"] = (("ext", "t%d" % n, ()),)
    return ts


def imports(n):
    """every template imports the next"""
    ts = {"t%d" % n: (el("l", (), (), (("c", "def", ("f", (("a", None),)), (), (("x", "a"),)),)),)}
    for i in range(n):
        ts["t%d" % i] = (el("l", (), (), (("imp", "t%d" % (i + 1), "m"), ("c", "def", ("f", (("a", None),)), (), (("t", "%d" % i), ("x", "m.f(a)"))))),)
    ts["t"] = (el("r", (), (), (("imp", "t0", "m"), ("x", "m.f(v)"))),)
    return ts


def many_imports(n):
    ts = {"l%d" % i: (el("l", (), (), (("c", "def", ("f", (("a", None),)), (), (("t", "%d" % i), ("x", "a"))),)),) for i in range(min(n, 5))}
    ts["t"] = (el("r", (), (), tuple(("imp", "l%d" % (i % 5), "m%d" % i) for i in range(n)) + joined(n, lambda i: [("x", "m%d.f(v)" % i)])),)
    return ts


def nested(n, f, inner=(X, T)):
    nodes = inner
    for i in range(n):
        nodes = f(i, tuple(nodes))
    return nodes


KINDS = {
    # kind: (what makes the nodes for n, the largest n)
    "children": (lambda n: joined(n, lambda i: [el("b", (), (), (X,))]), 0),
    "static": (lambda n: joined(n, lambda i: [el("b", (("k", (T,)),), (), (("t", "%d" % i),))]), 0),
    "expressions": (lambda n: joined(n, lambda i: [("t", "%d&" % i), X]), 0),
    "names": (lambda n: joined(n, lambda i: [("n", "v"), ("t", "; ")]), 0),
    "variables": (lambda n: joined(n, lambda i: [("x", "n%d" % i)]), 0),
    "value": (lambda n: (("x", "v * %d" % n), el("p", (("k", (("x", "v * %d" % n),)), ("m", (T, ("x", "v * %d" % n)))), (), (("x", "(v * %d,)" % n),))), 0),
    "loop": (lambda n: (("c", "for", ("i", "range(%d)" % n), (), (T, ("x", "i"))), el("i", (("k", (("x", "i"),)),), (("for", ("i", "(j for j in range(%d))" % n)),), (X,))), 0),
    "inner_loop": (lambda n: (("c", "for", ("i", "[0, 1]"), (), (("c", "for", ("h, j", "enumerate(v * %d)" % n), (), (("x", "j"),)), ("x", "i"))),), 0),
    "rows": (lambda n: (("c", "for", ("i, j, k", "[(i, v, i) for i in range(%d)]" % n), (), (("x", "k"), ("x", "j"), ("x", "i"))),), 0),
    "loop_strip": (lambda n: (el("b", (("k", (("x", "i"),)),), (("for", ("i", "range(%d)" % n)), ("strip", "i % 2")), (("x", "i"),)),), 0),
    "loop_def": (lambda n: (("c", "for", ("i", "range(%d)" % n), (), (("c", "def", ("f", (("a", None),)), (), (("x", "a"), ("x", "i"))), ("x", "f(v)"))),), 0),
    "attrs_dict": (lambda n: (el("p", (("k", (T,)),), (("attrs", "{'a%%d' %% i: v for i in range(%d)}" % n),), ()),), 0),
    "attrs_list": (lambda n: (el("p", (("a1", (X,)),), (("attrs", "[('a%%d' %% i, i %% 3 and v or None) for i in range(%d)]" % n),), ()),), 0),
    "parts": (lambda n: (el("p", (("title", joined(n, lambda i: [("t", "%d&" % i), X]) or (T,)),), (), ()),), 0),
    "attributes": (lambda n: (el("p", tuple(("a%d" % i, (("t", "%d<" % i),)) for i in range(n)), (), ()),), 0),
    "dynamic_attributes": (lambda n: (el("p", tuple(("a%d" % i, (X,)) for i in range(n)), (), ()),), 0),
    "overridden_attributes": (lambda n: (el("p", tuple(("a%d" % i, (X, T)) for i in range(n)), (("attrs", "{'a%%d' %% i: i %% 2 and v for i in range(%d)}" % n),), ()),), 0),
    "characters": (lambda n: (("t", "x<" * n), X, el("p", (("k", (("t", "y&" * n), X)),), (), (("t", "\n" * n),))), 0),
    "comment": (lambda n: (("raw", "<!--%s-->" % ("c<" * n), "<!--%s-->" % ("c<" * n)),), 0),
    "literal": (lambda n: (("x", "literal('%s')" % ("<b>" * n)), ("x", "'%s' + v" % ("<" * n))), 0),
    "depth": (lambda n: nested(n, lambda i, c: (el("d", (), (), c),)), 65),
    "depth_if": (lambda n: nested(n, lambda i, c: (("c", "if", "True" if i % 2 else "1", (), c + (X,)),)), 33),
    "depth_with": (lambda n: nested(n, lambda i, c: (("c", "with", (("w%d" % i, "v"),), (), c + (("x", "w%d" % i),)),)), 33),
    "depth_def": (lambda n: nested(n, lambda i, c: (("c", "def", ("f%d" % i, None), (), c), ("x", "f%d()" % i))), 33),
    "depth_for": (lambda n: nested(n, lambda i, c: (("c", "for", ("i%d" % i, "v" if i > 1 else "[1, 2]"), (), c + (("x", "i%d" % i),)),)), 17),
    "depth_strip": (lambda n: nested(n, lambda i, c: (el("b", (), (("strip", "v"),), c),)), 33),
    "depth_block": (lambda n: nested(n, lambda i, c: (("c", "block", "b%d" % i, (), c),)), 33),
    "ifs": (lambda n: joined(n, lambda i: [("c", "if" if i % 3 else "unless", "v and %d" % (i % 2), (), (("t", "%d" % i), X))]), 0),
    "strips": (lambda n: joined(n, lambda i: [el("b", (("k", (X,)),), (("strip", "%d and v" % (i % 2)),), (X,))]), 0),
    "contents": (lambda n: joined(n, lambda i: [el("b", (), (("content" if i % 2 else "replace", "v"),), (T,))]), 0),
    "with": (lambda n: (("c", "with", tuple(("w%d" % i, "v" if i < 2 else "w%d + w%d[:0]" % (i - 1, i - 2)) for i in range(n)) or (("w", "v"),), (), tuple(("x", "w%d" % i) for i in range(n))),), 0),
    "parameters": (lambda n: (("c", "def", ("f", tuple(("p%d" % i, "%d" % i if i > 1 else None) for i in range(n))), (), tuple(("x", "p%d" % i) for i in range(n))),
                              ("x", "f(%s)" % ", ".join(["v"] * min(2, n))), ("x", "f(%s)" % ", ".join(["v"] * n)), ("x", "f(%s)" % ", ".join("p%d=v" % i for i in range(n)))), 0),
    "recursion": (lambda n: (("c", "def", ("f", (("a", None),)), (), (el("b", (), (), (("x", "a"), ("c", "if", "a", (), (("x", "f(a - 1)"),)))),)), ("x", "f(%d)" % n)), 65),
    "defs": (lambda n: joined(n, lambda i: [("c", "def", ("f%d" % i, (("a", None),)), (), (("t", "%d" % i), ("x", "a"))), ("x", "f%d(v)" % i)]), 0),
    "blocks": (lambda n: joined(n, lambda i: [("c", "block", "b%d" % i, (), (("t", "%d" % i), X))]), 0),
    "code": (lambda n: joined(n, lambda i: [("pi", "q%d = v" % i if i < 1 else "q%d = q%d + v[:0]" % (i, i - 1)), ("x", "q%d" % i)]), 0),
    "words": (lambda n: (("t", " ".join("w%d" % i for i in range(n + 1))), el("p", (("title", (("t", " ".join("w%d" % i for i in range(n + 1))),)),), (), (("t", "w " * n + "."), X, ("t", "x" * n)))), 0),
    "spaces": (lambda n: (("t", " " * n + "w" + " " * n), X, ("t", "\n" * n), el("p", (("title", (("t", " " * n + "w"),)),), (), (("t", "\n" * n + "z" + "\t" * n),))), 0),
    "messages": (lambda n: joined(n, lambda i: [("t", "m%d" % i), el("b", (("title", (("t", "t%d" % i),)),), (), (("t", "b%d" % (i // 2)),))]), 0),
    "element_for": (lambda n: (el("p", (("k", (X, ("x", "i"))),), (("for", ("i", "range(%d)" % n)),), (X, T, ("x", "i"))),), 0),
    "element_ifs": (lambda n: joined(n, lambda i: [el("b", (), (("if", "v and %d" % (i % 2)),), (("t", "%d" % i), X))]), 0),
    "name_variable": (lambda n: (("c", "with", ((name(n), "v"),), (), (("n", name(n)), ("t", " "), ("x", name(n)))),), 0),
    "name_def": (lambda n: (("c", "def", (name(n), None), (), (X,)), ("x", name(n) + "()"), ("c", "block", name(n, "b"), (), (X,)), ("x", name(n, "b") + "()")), 0),
    "name_tag": (lambda n: (el(name(n), ((name(n), (X,)), ("k", (T,))), (("attrs", "{%r: v}" % name(n, "m")),), (X,)),), 0),
    "chain": (lambda n: chain(n, "block"), 33),
    "chain_def": (lambda n: chain(n, "def"), 33),
    "imports": (imports, 33),
    "many_imports": (many_imports, 65),
}


def merge(nodes):
    """adjacent texts are one"""
    rv = []
    for n in nodes:
        if n[0] == "t" and rv and rv[-1][0] == "t":
            rv[-1] = ("t", rv[-1][1] + n[1])
        elif n != ("t", ""):
            rv.append(n if n[0] not in ("el", "c") else n[:-1] + (merge(n[-1]),))
    return tuple(rv)


def case(kind, n):
    """templates (t is rendered), context"""
    f, _ = KINDS[kind]
    nodes = f(n)
    ctx = dict(v="<")
    if kind == "variables":
        ctx.update(("n%d" % i, "%d<" % i) for i in range(n))
    if isinstance(nodes, dict):
        return nodes, ctx
    return {"t": (el("html", (), (), merge((("t", "s"),) + tuple(nodes) + (("t", "e"),))),)}, ctx


def gen(kinds, deep=False):
    def g(choose):
        kind = choose(kinds)
        n = choose(MORE if deep else SIZES)
        if n > (KINDS[kind][1] or n):
            raise core.Skip()
        return kind, n
    return g


def run(c):
    ts, ctx = case(*c)
    r = py.compare(ts, "t", [ctx])
    return r and r[:600] + " ... " + r[-300:]


def suite(kinds, tier):
    kinds = kinds.split()
    for k in kinds:
        KINDS[k]
    return core.Suite("size", gen(kinds, tier == "thorough"), run, "%d kinds of templates of up to %d parts" % (len(kinds), (MORE if tier == "thorough" else SIZES)[-1]))
