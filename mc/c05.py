"""C05: names resolve lexically, and the closest binding wins."""
import functools
import re

from mc import core, py, sizes, tk
from mc.c01 import el

USES = ["a", "b", "[a for a in 'xy'][1] + b", "(lambda a: a + b)('l')", "[a + b for b in 'xy' if a][0]",
        "{a: b for a in 'k'}", "[b for a in [b] for b in [a]]", "(lambda a=b: a)()", "list((lambda: a)() for a in b)",
        "(lambda *a, **b: a)(b)", "[a for b in a for a in b][0] + b", "[[a for a in b] for b in a]",
        "a if b else b", "(c := 1) and c"]

# construct: (choice d) -> function from the nodes inside to nodes
CONS = {
    "with_a": lambda k, d: [("c", "with", (("a", "'w%d'" % d),), (), k)],
    "with_ab": lambda k, d: [el("i", (("t", (("x", "a"),)),), (("with", (("a", "'w%d'" % d), ("b", "a"))),), k)],
    "with_ba": lambda k, d: [("c", "with", (("b", "[a for a in 'pq'][0]"),), (), k)],
    "for_a": lambda k, d: [("c", "for", ("a", "'%d%d'" % (d, d + 1)), (), k)],
    "for_ab": lambda k, d: [el("i", (("t", (("x", "b"),)),), (("for", ("a, b", "[('f', 'g')]")),), k)],
    "def_a": lambda k, d: [("c", "def", ("f%d" % d, (("a", None),)), (), k), ("x", "f%d('A')" % d), ("x", "f%d(a='<')" % d)],
    "def_ab": lambda k, d: [("c", "def", ("f%d" % d, (("a", "'D'"), ("b", "a"))), (), k), ("x", "f%d()" % d),
                            ("x", "f%d(b='B')" % d)],
    "def": lambda k, d: [el("i", (), (("def", ("f%d" % d, None)),), k), ("x", "f%d()" % d)],
    "def_named_a": lambda k, d: [("c", "def", ("a", (("b", "'D'"),)), (), k), ("x", "a()"), ("x", "a('B')")],
    "block": lambda k, d: [("c", "block", "bl%d" % d, (), k)],
    "if": lambda k, d: [("c", "if", "a", (), k)],
    "pi_a": lambda k, d: [("pi", "a = 'p%d'" % d)] + list(k),
    "pi_b": lambda k, d: [("pi", "b = a * 2; x = lambda a: a")] + list(k),
    "el": lambda k, d: [el("p", (("q", (("t", "."), ("x", "b"))),), (), k)],
}
CTXS = [dict(a="ca", b="cb"), dict(a="ca"), dict(b="cb", a=""), {}]


def functions(result):
    """functions output as text have addresses"""
    return result[0], re.sub(r"&lt;function .*? at 0x[0-9a-f]+&gt;", "FUNCTION", result[1])


def gen(n, cons, uses, around):
    def g(choose):
        path = tuple(choose(cons) for _ in range(n))
        leaf = choose(uses)
        before, after = choose(around)
        case = path, leaf, before, after
        tk.Limits(build(case))
        return case
    return g


def build(case):
    path, leaf, before, after = case
    nodes = [("x", leaf)]
    for d in reversed(range(len(path))):
        nodes = CONS[path[d]](tuple(nodes), d)
        if before is not None:
            nodes = [("x", before)] + nodes
        if after is not None:
            nodes = nodes + [("t", ";"), ("x", after)]
    return (el("html", (), (), nodes),)


def run(case):
    ctxs = CTXS
    path = [p for p in case[0] if p not in ("el", "pi_a", "pi_b")]
    if path and path[0] == "def_named_a":
        # a value in the context overrides a top-level def of the same name: that is not decided here
        ctxs = [c for c in CTXS if "a" not in c]
    return py.compare({"t": build(case)}, "t", ctxs, normalize=functions)


# ------------------------------------------------------------- where definitions are visible
def gen_defs(choose):
    place = choose(("root", "el", "el2", "with", "if", "for", "block", "def"))
    use = choose(("before", "inside", "after", "def", "block", "attr", "comp", "with", "lambda", "argument", "default",
                  "nested-def"))
    second = choose(("none", "calls", "recursive", "mutual"))
    ctxf = choose((0, 1))
    params = choose((None, (), (("a", None),), (("a", "'D'"),), (("b", "a"),)))
    case = place, use, second, ctxf, params
    ts = build_defs(case)
    tk.Limits(ts)
    return case


def build_defs(case):
    place, use, second, ctxf, params = case
    arg = "'<A>'" if params == (("a", None),) else ""
    call = "f(%s)" % arg
    body = [("t", "F"), ("x", "a")]
    if second == "calls":
        body.append(("x", "g()"))
    elif second == "recursive":
        body = [("c", "if", "n", (), (("x", "n.pop()"), ("x", call)))]
    elif second == "mutual":
        body = [("c", "if", "n", (), (("x", "n.pop()"), ("x", "h()")))]
    d = ("c", "def", ("f", params), (), tuple(body))
    inside = [d] + ([("t", "in:"), ("x", call)] if use == "inside" else [])
    nodes = {"root": inside, "el": [el("p", (), (), inside)], "el2": [el("p", (), (), [el("b", (), (), inside)])],
             "with": [("c", "with", (("a", "'W'"),), (), tuple(inside))], "if": [("c", "if", "b", (), tuple(inside))],
             "for": [("c", "for", ("i", "'12'"), (), tuple(inside))], "block": [("c", "block", "bl", (), tuple(inside))],
             "def": [("c", "def", ("o", None), (), tuple(inside)), ("x", "o()")]}[place]
    extra = []
    if second == "calls":
        extra = [("c", "def", ("g", None), (), (("t", "G"), ("x", "a")))]
    if second == "mutual":
        extra = [("c", "def", ("h", None), (), (("t", "H"), ("x", call)))]
    u = {"before": [("x", call)], "after": [("x", call)], "inside": [],
         "def": [("c", "def", ("u", None), (), (("x", call),)), ("x", "u()")],
         "nested-def": [("c", "with", (("q", "1"),), (), (("c", "def", ("u", (("a", "3"),)), (), (("x", call),)), ("x", "u()")))],
         "block": [("c", "block", "ub", (), (("x", call),))],
         "attr": [el("p", (("t", (("x", call),)), ("s", (("t", "-"), ("x", call)))), (), ())],
         "comp": [("x", "[str(%s) for a in 'xy']" % call)],
         "lambda": [("x", "(lambda a: %s)(4)" % call)],
         "argument": [("x", "str(%s).upper()" % call)],
         "default": [("c", "with", (("q", "1"),), (), (("c", "def", ("u", (("z", call),)), (), (("x", "z"),)), ("x", "u()")))],
         "with": [("c", "with", (("z", call),), (), (("x", "z"),))]}[use]
    nodes = u + nodes + extra if use == "before" else nodes + u + extra
    return (el("html", (), (), nodes),)


class Ns(list):
    """a list that is refilled for every render"""


def run_defs(case):
    nodes = build_defs(case)
    ctxf = case[3]
    t = py.load_templates({"t": nodes})("t")
    # a value in the context overrides a top-level def of the same name: that is not decided here
    if ctxf and case[0] in ("root", "el", "el2"):
        return None
    for base in (dict(a="ca", b="cb"), dict(a="ca", b=""), dict(b=1)):
        def ctx():
            c = dict(base, n=[1, 2])
            if ctxf:
                c["f"] = lambda *a: "ctx%r" % (a,)
            return c
        got = py.render(t, ctx())
        want = tk.model_render({"t": nodes}, "t", ctx())
        core.outcome(got)
        if got != want:
            return "%s\nwith %r (context f: %r)\n  gives    %r\n  expected %r" % (tk.source(nodes), base, ctxf, got, want)


# ------------------------------------------------------------- builtin names
NAMES = ["id", "len", "str", "input", "max", "type", "sum", "print", "range", "abs", "list", "x_y", "_u", "self", "context",
         "escape", "output", "buffer", "e", "k", "NameError", "__main", "b\u00e9"]


def gen_names(choose):
    n = choose(NAMES)
    where = choose(("ctx", "def", "defp", "block", "with", "for", "comp", "lambda", "param", "import", "free", "call",
                    "ctx-nested", "def-used-in-block", "nested-def", "with-for", "attr"))
    return n, where


def run_names(case):
    n, where = case
    ctx = {}
    lib = None
    if where == "ctx":
        nodes, ctx = [("x", n), el("p", (("t", (("x", n),)),), (), (("x", n + ".upper()"),))], {n: "<c>"}
    elif where == "ctx-nested":
        nodes = [("c", "with", (("q", n),), (), (("c", "def", ("f", (("z", n),)), (), (("x", "z"), ("x", n), ("x", "q"))), ("x", "f()")))]
        ctx = {n: "<c>"}
    elif where == "def":
        nodes = [("x", n + "()"), ("c", "def", (n, None), (), (("t", "D"),)), ("x", n + "()")]
    elif where == "defp":
        nodes = [("c", "def", (n, (("a", "'z'"),)), (), (("x", "a"),)), ("c", "for", ("i", "'ab'"), (), (("x", n + "(i)"), ("x", n + "()")))]
    elif where == "block":
        nodes = [("x", n + "()"), ("c", "block", n, (), (("t", "B"),)), ("x", n + "()")]
    elif where == "def-used-in-block":
        nodes = [("c", "def", (n, None), (), (("t", "D"),)), ("c", "block", "bl", (), (("x", n + "()"),))]
    elif where == "with":
        nodes = [("c", "with", ((n, "'<w>'"),), (), (("x", n), ("c", "def", ("f", None), (), (("x", n),)), ("x", "f()")))]
    elif where == "for":
        nodes = [("c", "for", (n, "'ab'"), (), (("x", n), el("p", ((("t"), (("x", n),)),), (), ())))]
    elif where == "with-for":
        nodes = [("c", "with", ((n, "'ab'"),), (), (("c", "for", ("i", n), (), (("x", "i"), ("x", n))),))]
    elif where == "comp":
        nodes = [("x", "[%s for %s in 'ab']" % (n, n))]
    elif where == "lambda":
        nodes = [("x", "(lambda %s, q=1: %s)('z')" % (n, n))]
    elif where == "param":
        nodes = [("c", "def", ("f", ((n, "'d'"),)), (), (("x", n),)), ("x", "f()"), ("x", "f('<')"), ("x", "f(%s=2)" % n)]
    elif where == "nested-def":
        nodes = [("c", "if", "1 == 1", (), (("c", "def", (n, None), (), (("t", "D"),)), ("x", n + "()")))]
    elif where == "import":
        nodes = [("imp", "lib", n), ("x", n + ".f()"), ("c", "def", ("g", None), (), (("x", n + ".f()"),)), ("x", "g()")]
        lib = (el("lib", (), (), (("c", "def", ("f", None), (), (("t", "L"),)),)),)
    elif where == "attr":
        nodes, ctx = [el("p", ((("t"), (("x", n),)),), (("attrs", "{'k': %s}" % n), ("content", n)), ())], {n: "v"}
    elif where == "free":
        nodes = [("x", n)]
        import builtins
        if hasattr(builtins, n):
            return None            # its text may contain addresses
    else:
        nodes = [("x", {"id": "id(1) == id(1)", "len": "len('abc')", "str": "str(5)", "input": "input is not None",
                        "max": "max(1, 2)", "type": "type(1) is int", "sum": "sum([1, 2])", "print": "print is not None",
                        "range": "range(3)[1]", "abs": "abs(-1)", "list": "list('ab')", "NameError": "NameError('x').args"}.get(n, n))]
    ts = {"t": (el("html", (), (), nodes),)}
    if lib:
        ts["lib"] = lib
    return py.compare(ts, "t", [ctx])


# ------------------------------------------------------------- where Python's rules show through
LIMIT_CASES = ["with-self", "for-self", "for-after", "literal-shadowed"]


def gen_limits(choose):
    return choose(LIMIT_CASES)


def run_limits(case):
    nodes = {
        "with-self": [("c", "with", (("a", "a + '!'"),), (), (("x", "a"),))],
        "for-self": [("c", "for", ("a", "[a]"), (), (("x", "a"),))],
        "for-after": [("c", "for", ("a", "'x'"), (), (("x", "a"),)), ("x", "a")],
        "literal-shadowed": [("c", "with", (("literal", "str"),), (), (("x", "literal('<')"),))],
    }[case]
    return py.compare({"t": (el("html", (), (), nodes),)}, "t", [dict(a="ca")])


# ------------------------------------------------------------- every form of expression and statement with a free name
EXPRESSIONS = [
    "x", "(lambda: x)()", "(lambda p=x: p)()", "(lambda *, p=x: p)()", "(lambda q, /, p=x: p)(1)", "(lambda q=x, /: q)()",
    "(lambda q=1, *r, p=x, **s: p)()", "(lambda p: p)(x)", "(lambda p: p)(p=x)", "(lambda *p: p)(*x)", "(lambda **p: p)(**{'k': x})",
    "(lambda: (lambda: x)())()", "(lambda: (lambda q=x: q)())()", "(lambda: (lambda *, q=x: q)())()", "(lambda p=(lambda: x): p())()",
    "(lambda p=[q for q in x]: p)()", "(lambda *, p=[x for q in '1']: p)()", "[x for p in '12']", "[p for p in x]", "[p for p in '12' if x]",
    "[p for p in '12' if 1 if x]", "[p for q in '1' for p in x]", "[p for q in '1' for p in q + x]", "[p for q in '1' if x for p in q]",
    "{x for p in '1'}", "{p: x for p in '1'}", "{x: p for p in '1'}", "{p: 1 for p in x}", "{p: 1 for p in '1' if x}", "{p for p in x}",
    "{p for p in '1' if not x}", "list(x for p in '1')", "list(p for p in x)", "list(p for p in '1' if x)", "[[x for q in '1'] for p in '2']",
    "[[q for q in x] for p in '2']", "[[q for q in p] for p in [x]]", "[(lambda: x)() for p in '1']", "[(lambda q=x: q)() for p in '1']",
    "[(lambda *, q=x: q)() for p in '1']", "f'{x}'", "f'{x!r}'", "f'{5:{x}}'", "f'{5:>{len(x)}}'", "f'{x=}'", "f'a{x}b{1}'", "f'{[x for p in [1]]}'",
    "f'{(lambda: x)()}'", "str(x)", "'ab'[len(x) - 1]", "'abcdef'[:len(x)]", "'abcdef'[len(x):]", "'abcdef'[::len(x)]", "x[0]", "x[0:1]", "x.upper()",
    "x.upper", "x if 1 else 2", "1 if x else 2", "2 if 0 else x", "0 or x", "1 and x", "not x", "'1' < x", "'1' < '2' < x", "x < '3'", "'1' < x < '3'",
    "-len(x)", "~len(x)", "x + '1'", "'1' + x", "'%s' % x", "[x, 1][0]", "(x,)", "{x}", "{1: x}", "{x: 1}", "[*x]", "(*x, 1)", "{*x}", "{**{'k': x}}",
    "dict(k=x)", "max(*x)", "dict(**{'k': x})", "(p := x)", "[p := x, p]", "(p := 1) and x", "x == x", "'1' in x", "x is None", "x not in '12'",
    "[x for x in x]", "[x for x in x if x]", "{x: x for x in x}", "{x for x in x}", "list(x for x in x)", "(lambda x=x: x)()", "(lambda *, x=x: x)()", "(lambda x: x)(x)",
    "(lambda *x: x)(x)", "(lambda **x: x)(k=x)", "(lambda x, /: x)(x)", "(lambda x: [x for x in x])(x)", "[x for p in x for x in p]",
    "[(x, p) for p in x for x in p]", "[p for p in [x for x in x]]", "[(lambda: x)() for x in x]", "[(lambda x=x: x)() for p in x]",
    "(lambda: [x for x in x])()", "(lambda p: (lambda: p)())(x)", "(lambda p: (lambda x: x)(p))(x)", "[p for p, q in [x]]", "[(p, q) for p, *q in [x]]", "[x for (x, p) in [x]]",
    "[x for p, *x in [x]]", "[x for [p, x] in [x]]", "([p for p, x in [x]], x)", "[p for (p, (q, x)) in [(1, x)]]", "((lambda x: 1)(2), x)", "([x for x in '34'], x)", "({x: 1 for x in '34'}, x)",
    "(x, [x for x in '34'])", "(list(x for x in '34'), x)", "((lambda x=5: x)(), x)", "((lambda *, x=5: x)(), x)", "((lambda *x: x)(), x)", "((lambda **x: x)(), x)",
    "((lambda x=5, /: x)(), x)", "[x for p in [x for x in '34']]", "[x for x in [x for p in '34']]", "[x.upper() for p in [x.lower() for q in '3']]", "(lambda y: x + y)(y='3')",
    "[p for p in '34' if [q for q in x if q == p]]", "any(p == x for p in [x])", "sorted(x, key=lambda p: -int(p) if x else 0)", "[x][-1 if x else 0]", "(yield_ := x)",
    "{'x': 1}['x'] and x", "dict(x=1)['x'], x", "dict(x=x)", "'x' + x", "x.join('x')", "type(x).__name__", "(x).__class__.__name__", "getattr(x, 'upper')()", "...  if not x else 1",
    "x[(lambda: 0)()]", "x[{0: 0 for x in '3'}[0]]", "x if [x for x in ''] else x", "(*[x], *[x for x in '3'])", "[*(x for x in x)]", "{**{x: x for x in x}}"]


def place_expr(place, e):
    """nodes that output the value of e, and the Python expression for the text that is output"""
    if place == "text":
        return [("x", e)], "str(%s)"
    if place == "attr":
        return [el("p", (("t", (("t", "-"), ("x", e))),), (), ())], "str(%s)"
    if place == "attr1":
        return [el("p", (("t", (("x", "[%s]" % e),)),), (), ())], "str([%s])"
    if place == "content":
        return [el("p", (), (("content", "(%s)" % e),), ())], "str(%s)"
    if place == "attrs":
        return [el("p", (), (("attrs", "{'t': [%s]}" % e),), ())], "str(%s)"
    if place == "with":
        return [("c", "with", (("v", "(%s)" % e),), (), (("x", "v"),))], "str(%s)"
    if place == "for":
        return [("c", "for", ("v", "[%s]" % e), (), (("x", "v"),))], "str(%s)"
    if place == "if":
        return [("c", "if", "(%s)" % e, (), (("t", "yes"),))], "'yes' if %s else ''"
    if place == "strip":
        return [el("b", (), (("strip", "(%s)" % e),), (("t", "k"),))], "'' if %s else 'b'"
    if place == "default":
        return [("c", "if", "1", (), (("c", "def", ("f", (("v", "(%s)" % e),)), (), (("x", "v"),)), ("x", "f()")))], "str(%s)"
    if place == "topdefault":
        return [("c", "def", ("f", (("v", "(%s)" % e),)), (), (("x", "v"),)), ("x", "f()")], "str(%s)"
    if place == "def":
        return [("c", "def", ("f", None), (), (("x", e),)), ("x", "f()"), ("x", "f()")], "str(%s)"
    if place == "script":
        return [el("script", (), (), (("x", e),))], "str(%s)"
    if place == "block":
        return [("c", "block", "bl", (), (("x", e),))], "str(%s)"


EXPR_PLACES = ["text", "attr", "attr1", "content", "attrs", "with", "for", "if", "strip", "default", "topdefault", "def", "script", "block"]
AROUND = {"none": lambda k: k, "with": lambda k: [("c", "with", (("x", "'78'"),), (), tuple(k))],
          "for": lambda k: [("c", "for", ("x", "['78', '9']"), (), tuple(k))],
          "param": lambda k: [("c", "def", ("o", (("x", "'78'"),)), (), tuple(k)), ("x", "o()"), ("x", "o('65')")],
          "free": lambda k: [("c", "def", ("o", (("x", None),)), (), tuple(k + [("x", "x")])), ("x", "o('78')")],
          "after": lambda k: [("c", "with", (("x", "'78'"),), (), (("x", "x"),))] + k + [("x", "x")]}


def gen_forms(choose):
    e = choose(EXPRESSIONS)
    place, around = choose(EXPR_PLACES), choose(sorted(AROUND))
    if place in ("topdefault", "def") and around in ("with", "for") or not python_agrees(e):
        raise core.Skip
    return e, place, around


@functools.lru_cache(None)
def python_agrees(e):
    """
    Whether Python itself evaluates the expression in nested functions as at the
    top level: CPython 3.12.3 has bugs in inlined comprehensions.
    """
    want = str(eval(e, {"x": "12"}))
    for more in ("", ", x"):
        ns = {}
        exec("def f(x):\n def g():\n  v = %s\n  return str(v)%s\n return g()" % (e, more), ns)
        try:
            if "object at" not in want and "lambda>" not in want and ns["f"]("12") != ((want, "12") if more else want):
                return False
        except NameError:
            return False
    return True


def run_forms(case):
    e, place, around = case
    nodes = place_expr(place, e)[0]
    ts = {"t": (el("html", (), (), AROUND[around](nodes)),)}
    return py.compare(ts, "t", [{"x": "12"}, {"x": "21", "p": "P", "q": "Q", "y": 1}, {}], normalize=functions)


STATEMENTS = [
    ("y = x", "y"), ("y = x; y += x", "y"), ("y: str = x", "y"), ("def y(p=x): return p", "y()"), ("def y(*, p=x): return p", "y()"),
    ("def y(p=x, /): return p", "y()"), ("def y():\n  return x", "y()"), ("def y():\n  def z(): return x\n  return z()", "y()"),
    ("def y():\n  def z(p=x): return p\n  return z()", "y()"), ("def y(x=x):\n  return x", "y()"), ("def y(*x):\n  return x", "y()"), ("def y(x):\n  return x", "y(x)"),
    ("def y(x):\n  return x", "y(3)"), ("class y:\n  p = x", "y.p"), ("class y:\n  def p(self): return x", "y().p()"),
    ("class y(x.__class__):\n  p = 1", "y.p"), ("for y in x: pass", "y"), ("while 1:\n  y = x\n  break", "y"), ("if x: y = 1\nelse: y = 2", "y"),
    ("if not x: y = 1\nelif x: y = 3\nelse: y = 2", "y"), ("try:\n  y = x\nexcept KeyError as e: pass", "y"), ("try:\n  y = int(x) // 0\nexcept ZeroDivisionError as e: y = x", "y"),
    ("try:\n  pass\nfinally: y = x", "y"), ("import os.path as y", "y.join('a', x)"), ("from os import sep as y", "y + x"), ("import os", "os.sep + x"),
    ("y, z = x", "y + z"), ("(y, *z) = x", "[y, z]"), ("[y, z] = x", "z"), ("y = z = x", "y + z"), ("y = [x for q in '1']", "y"), ("assert x; y = 1", "y"),
    ("match x:\n  case '12': y = 1\n  case p: y = p", "y"), ("match [1, x]:\n  case [1, p]: y = p", "y"), ("match {'k': x}:\n  case {'k': p, **q}: y = p", "y"),
    ("match x:\n  case str() as p if p == x: y = p", "y"), ("match [1, 2]:\n  case [*p]: y = p", "y"), ("y = lambda: x", "y()"), ("y = lambda p=x: p", "y()"), ("y = lambda *, p=x: p", "y()"), ("if (y := x): pass", "y"),
    ("y = []\ny.append(x)", "y"), ("y = {}\ny['k'] = x", "y"), ("y = {}\ny[x] = 1", "y"), ("y = 'abc'; y = y[len(x):]", "y"),
    ("def y(p: x = 1): return p", "y()"), ("def y(*p: x): return 1", "y()"), ("def z(f): return f\n@z\ndef y(): return x", "y()"),
    ("def z(f): return x\n@z\ndef y(): return 1", "y"), ("for p in x: y = p\nelse: y = x", "y"), ("def y():\n  z = 1\n  def w():\n    nonlocal z\n    z = x\n  w()\n  return z", "y()"),
    ("import contextlib\nwith contextlib.nullcontext(x) as y: pass", "y"), ("import contextlib\nwith contextlib.nullcontext(x) as (y, z): pass", "y"), ("y = f'{x}'", "y"), ("y = x if x else 1", "y"), ("y = [*x]", "y"), ("y = z = 1\ndel z", "(y, x)"),
    ("y = yield_ = x", "y"), ("class y:\n  p = [q for q in x]", "y.p"), ("def y():\n  class z:\n    w = x\n  return z.w", "y()"), ("y = 1\ny, z = x, y", "(y, z)"), ("y = (lambda: x)\nz = y()", "z"),
    ("def y():\n  import os as x\n  return x.sep", "y() + x"), ("def y():\n  for x in '34': pass\n  return x", "y() + x"), ("def y():\n  x = 5\n  return x", "(y(), x)"), ("def y():\n  try: 1/0\n  except ZeroDivisionError as x: pass\n  return 1", "(y(), x)"),
    ("class y:\n  x = 5", "(y.x, x)"), ("class y:\n  x = 5\n  def p(self): return x", "(y().p(), y.x)"), ("class y:\n  def x(self): return 1", "(y().x(), x)"), ("def y():\n  [x := p for p in '34']\n  return x", "(y(), x)"), ("def y():\n  match 5:\n    case x: return x", "(y(), x)"), ("def y():\n  with open('/dev/null') as x: return 1", "(y(), x)"),
    ("def y():\n  def x(): return 5\n  return x()", "(y(), x)"), ("def y():\n  class x: pass\n  return 1", "(y(), x)"), ("def y():\n  x: int = 5\n  return x", "(y(), x)"), ("def y():\n  x, z = 3, 4\n  return x", "(y(), x)"),
    ("async def y(p=x): return p", "y.__defaults__"), ("y = [x async for x in z] if 0 else x", "y") if 0 else ("y = x", "y"), ("def y():\n  yield x", "list(y())"), ("def y():\n  yield from x", "list(y())"),
    ("def y():\n  return (yield x)", "list(y())"), ("def y():\n  raise KeyError(x)\ntry: y()\nexcept KeyError as e: z = e.args", "z"), ("def y(p, q=x, *r, s=x, **t): return (p, q, r, s, t)", "y(1)")]


def gen_statements(choose):
    return choose(len(STATEMENTS)), choose(("none", "with", "for", "param", "if", "defx")), choose(("text", "attr"))


def run_statements(case):
    n, around, use = case
    code, y = STATEMENTS[n]
    nodes = [("pi", code), ("x", y) if use == "text" else el("p", (("t", (("t", "-"), ("x", y))),), (), ())]
    if around == "if":
        nodes = [("c", "if", "1 == 1", (), tuple(nodes))]
    elif around == "defx":
        nodes = [("c", "def", ("o", None), (), tuple(nodes)), ("x", "o()"), ("x", "o()")]
    else:
        nodes = AROUND[around](nodes)
    source = tk.source((el("html", (), (), nodes),))
    t = py.load1(source)
    for ctx in ({"x": "12"}, {}):
        xs = {"none": [None], "if": [None], "defx": [None, None], "with": ["78"], "for": ["78", "9"], "param": ["78", "65"]}[around]
        want = ""
        for x in xs:
            ns = dict(ctx)
            if x is not None:
                ns["x"] = x
            try:
                exec("from __future__ import annotations\n" * 0 + code, ns)
                v = tk.escape(str(eval(y, ns)))
            except Exception as e:
                want = ("err", "NameError" if isinstance(e, NameError) else type(e).__name__)
                break
            want += v if use == "text" else '<p t="-%s"></p>' % v
        want = want if type(want) is tuple else ("ok", "<html>%s</html>" % want)
        got = functions(py.render(t, ctx))
        core.outcome(got)
        if got[:2] != functions(want)[:2]:
            return "%s\nwith %r\n  gives    %r\n  expected %r" % (source, ctx, got, want)


def suites(tier):
    deep = tier == "thorough"
    cons = sorted(CONS)
    arounds = [(x, y) for x in (None, "a", "[b for a in 'z']") for y in (None, "b", "[a for a in b]", "a")]
    rv = [
        core.Suite("python_scoping", gen_limits, run_limits, "templates in which Python's function scopes show"),
        core.Suite("names", gen_names, run_names, "builtin and special names in every kind of binding"),
        core.Suite("expression_forms", gen_forms, run_forms, "every form of expression with a free name x place of the expression x enclosing binding"),
        core.Suite("statement_forms", gen_statements, run_statements, "every form of statement with a free name x enclosing binding"),
        core.Suite("nesting1", gen(1, cons, USES, arounds), run, "one construct, all uses inside and around"),
        core.Suite("nesting2", gen(2, cons, USES, arounds), run, "two nested constructs"),
        core.Suite("nesting3", gen(3, cons, USES if deep else ["a", "b", "[a + b for b in 'xy' if a][0]", "(lambda a=b: a)()"],
                                   arounds if deep else [("a", None), (None, "b"), (None, None), ("b", "[a for a in b]")]),
                   run, "three nested constructs"),
        core.Suite("definitions", gen_defs, run_defs, "place of a definition x place of its use x parameters"),
        sizes.suite("variables loop inner_loop rows loop_def depth_with depth_def depth_for with parameters recursion defs code name_variable name_def imports chain_def", tier),
    ]
    if deep:
        rv.append(core.Suite("nesting4", gen(4, cons, ["a", "b"], [("a", None), (None, "b"), (None, None)]), run,
                             "four nested constructs"))
    return rv
