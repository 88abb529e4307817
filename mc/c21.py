"""C21: blocks, inheritance, minified output and the compile command of JavaScript templates."""
import keyword
import os
import runpy
import subprocess
import sys

from mc import c07, c20, core, js, py, sizes, tk
from mc.c01 import el

MODES = ("plain", "minify", "command")


def command(src):
    """the output of bin/tonnikala-compile-jstemplate, run within this process"""
    d = py.fresh_dir()
    a, b = os.path.join(d, "in.html"), os.path.join(d, "out.js")
    with open(a, "w") as f:
        f.write(src)
    core.step()
    argv = sys.argv
    sys.argv = ["tonnikala-compile-jstemplate", a, b]
    try:
        g = runpy.run_path(os.path.join(core.REPO, "bin/tonnikala-compile-jstemplate"), run_name="__main__")
    except SystemExit as e:
        if e.code:
            raise RuntimeError("exit code %r" % (e.code,))
        g = {}
    finally:
        sys.argv = argv
    # at the end of the process everything is flushed
    for v in list(g.values()):
        for f in [v] + list(getattr(v, "__dict__", {}).values()):
            if hasattr(f, "flush") and getattr(f, "name", None) in (a, b) and not f.closed:
                f.close()
    with open(b) as f:
        return f.read()


_cache = {}


def code(nodes, mode):
    key = nodes, mode
    rv = _cache.get(key)
    if rv is None:
        if len(_cache) > 5000:
            _cache.clear()
        src = tk.source(nodes, "js")
        rv = _cache[key] = command(src) if mode == "command" else js.compile1(src, minify=mode == "minify")
    return rv


# ------------------------------------------------------------------- chains
DEFS = {
    "block": c07.DEFS["block"], "attr": c07.DEFS["attr"], "def": c07.DEFS["def"], "calls": c07.DEFS["calls"], "defcalls": c07.DEFS["defcalls"], "nested": c07.DEFS["nested"], "with": c07.DEFS["with"], "if": c07.DEFS["if"],
    "defp": lambda l, n: [("c", "def", (n, (("p", None), ("q", None))), (), c07.body(l, n) + (("x", "p"), ("x", "q")))],
}
BASES = {
    "blocks": c07.BASES["blocks"], "nested": c07.BASES["nested"], "def-call": c07.BASES["def-call"], "only-calls": c07.BASES["only-calls"], "def-def": c07.BASES["def-def"], "w": c07.BASES["w"], "none": c07.BASES["none"],
    "loop": lambda: [("c", "for", ("i", "[1, 2]"), (), tuple(DEFS["block"](0, "x"))), ("c", "if", "v", (), tuple(DEFS["nested"](0, "y"))), ("x", "y()")],
}


def chain(case):
    b, levels = case
    ts = {"t0": tup((el("html", (), (), BASES[b]()),))}
    for i, (opts, extra) in enumerate(levels):
        l = i + 1
        kids = [("t", "\n ")]
        for n, o in zip(c07.NAMES, opts):
            if o:
                kids += DEFS[o](l, n) + [("t", "\n")]
        if extra == "z":
            kids += [("c", "block", "z", (), (("t", "z!%d" % l),))]
        elif extra == "w":
            kids += [("c", "def", ("w", None), (), (("t", "w!%d" % l), ("x", "v")))]
        ts["t%d" % l] = tup((("ext", "t%d" % i, tuple(kids)),))
    return ts


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def gen(depth, opts, extras, bases, modes):
    def g(choose):
        return choose(bases), tuple((tuple(choose(opts) for _ in c07.NAMES), choose(extras)) for _ in range(depth)), choose(modes)
    return g


CTXS = [dict(v="<v>"), dict(v=""), {}]


def run(case):
    b, levels, mode = case
    ts = chain((b, levels))
    if mode == "mixed":
        codes = {n: code(t, MODES[int(n[1:]) % 2]) for n, t in ts.items()}
    else:
        codes = {n: code(t, mode) for n, t in ts.items()}
    calls, want = [], []
    for n in sorted(ts, reverse=True):
        for c in CTXS:
            calls.append((n, js.source_of(c), {}))
            want.append(js.model_render(ts, n, c))
    got = js.execute(codes, calls)
    core.outcome(tuple(g[:2] for g in got))
    if [js.short(g) for g in got] != want:
        for call, g, w in zip(calls, got, want):
            if js.short(g) != w:
                return "%s\n%s: render %s with %s\n  gives    %r\n  expected %r" % ("\n".join("%s: %s" % (k, tk.source(v, "js")) for k, v in ts.items()), mode, call[0], call[1], g, w)
        return "%s: global variables appeared: %r" % (case, got[-1])


# ------------------------------------------------------------------- orders of rendering
ORDER_CASES = [
    ("blocks", ((("block", None), None), ((None, "calls"), "w"))), ("nested", (((None, "block"), None), (("block", None), None))), ("def-call", ((("def", None), None), (("defcalls", "block"), None))),
    ("w", ((("nested", None), None), (("block", None), "z"))), ("loop", ((("nested", "nested"), "z"), ((None, "block"), "z"))), ("only-calls", ((("def", None), None), ((None, "def"), None))),
]


def gen_order(n):
    def g(choose):
        return choose(len(ORDER_CASES)), choose(("plain", "minify")), tuple((choose(("t0", "t1", "t2", "s")), choose(("", "c"))) for _ in range(n))
    return g


def run_order(case):
    k, mode, ops = case
    ts = chain(ORDER_CASES[k])
    ts["s"] = tup((("ext", "t0", tuple(DEFS["block"](7, "x") + DEFS["def"](7, "y") + [("c", "block", "z", (), (("t", "z7"),))])),))
    codes = {n: code(t, mode) for n, t in ts.items()}
    calls, want = [], []
    for i, (n, same) in enumerate(ops):
        c = dict(v="<same>" if same else "<%d>" % i)
        calls.append((n, js.source_of(c), dict(same=same) if same else {}))
        want.append(js.model_render(ts, n, c))
    got = js.execute(codes, calls)
    core.outcome(tuple(got))
    if [js.short(g) for g in got] != want:
        return "%r\n%r\n  gives    %r\n  expected %r" % ({k: tk.source(v, "js") for k, v in ts.items()}, calls, got, want)


# ------------------------------------------------------------------- any construct within the templates of a chain
def gen_inside(n, leaves, modes, uses, around):
    def g(choose):
        where, mode = choose(c07.WHERE), choose(modes)
        if choose(("nest", "scope")) == "nest":
            return where, mode, ("nest", tuple(choose(sorted(c20.CONS)) for _ in range(n)), choose(leaves))
        return where, mode, ("scope", tuple(choose(sorted(c20.SCOPE)) for _ in range(n)), choose(uses), choose(around))
    return g


def run_inside(case):
    where, mode, sub = case
    if sub[0] == "nest":
        nodes, ctxs = c20.nest(sub[1], c20.LEAVES[sub[2]])[0][4], c20.NCTX
    else:
        nodes, ctxs = [("x", c20.USES[sub[2]])], c20.SCTX
        if sub[1][0] == "def_named_a":
            ctxs = [c for c in ctxs if "a" not in c]
        for d in reversed(range(len(sub[1]))):
            nodes = c20.SCOPE[sub[1][d]](tuple(nodes), d)
            if sub[3]:
                nodes = [("x", "a")] + nodes + [("x", "b")]
    ts = {k: tup(v) for k, v in c07.inside(nodes, where).items()}
    codes = {n: code(t, mode) for n, t in ts.items()}
    got = js.execute(codes, [(max(ts), js.source_of(c), {}) for c in ctxs])
    for c, g in zip(ctxs, got):
        want = js.model_render(ts, max(ts), c)
        core.outcome(g[:2])
        if js.short(g) != want:
            return "%s\n%s, with %s\n  gives    %r\n  expected %r" % ("\n".join("%s: %s" % (k, tk.source(v, "js")) for k, v in ts.items()), mode, js.source_of(c), g, want)
    if len(got) > len(ctxs):
        return "%r: global variables appeared: %r" % (case, got[-1])


# ------------------------------------------------------------------- names of blocks and defs
KINDS = ("block", "attr", "def", "calls", "nested")


def gen_names(n):
    def g(choose):
        return choose(c20.NAMES), tuple(choose(KINDS if i == 0 else (None,) + KINDS) for i in range(n + 1)), choose(("plain", "minify"))
    return g


def run_names(case):
    name, kinds, mode = case
    if name in ("v", "w", "z") or keyword.iskeyword(name):
        return None
    ts = {}
    for l, k in enumerate(kinds):
        kids = [] if k is None else DEFS[k](l, name)
        if l == 0:
            ts["t0"] = (el("html", (), (), tuple(kids) + (("c", "def", ("w", None), (), (("t", "w"),)), ("x", "%s()" % name), ("t", ","), el("p", (("k", (("x", "%s()" % name),)),), (), ()))),)
        else:
            ts["t%d" % l] = (("ext", "t%d" % (l - 1), tuple(kids)),)
    ts = {k: tup(v) for k, v in ts.items()}
    codes = {n: code(t, mode) for n, t in ts.items()}
    calls = [(n, js.source_of(c), {}) for n in sorted(ts) for c in CTXS]
    got = js.execute(codes, calls)
    want = [js.model_render(ts, n, c) for n in sorted(ts) for c in CTXS]
    core.outcome(tuple(g[:2] for g in got))
    if [js.short(g) for g in got] != want:
        return "%s\n%s\n  gives    %r\n  expected %r" % ("\n".join("%s: %s" % (k, tk.source(v, "js")) for k, v in ts.items()), mode, got, want)


# ------------------------------------------------------------------- the output modes on other templates
def run_modes(case):
    mode, sub = case
    if sub[0] == "nest":
        nodes, ctxs = c20.nest(sub[1], c20.LEAVES[sub[2]]), c20.NCTX
    elif sub[0] == "scope":
        nodes, ctxs = [("x", c20.USES[sub[2]])], c20.SCTX
        for d in reversed(range(len(sub[1]))):
            nodes = [("x", "a")] + c20.SCOPE[sub[1][d]](tuple(nodes), d) + [("x", "b")]
        nodes = (el("html", (), (), nodes),)
    else:
        nodes, ctxs = (el("r", (("k", (("t", sub[1]),)),), (), (("t", sub[1]), ("x", "v"), ("raw", "<!--c-->", "<!--c-->"))),), [dict(v=sub[1])]
    nodes = tup(nodes)
    got = js.execute({"t": code(nodes, mode)}, [("t", js.source_of(c), {}) for c in ctxs])
    for c, g in zip(ctxs, got):
        w = js.model_render({"t": nodes}, "t", c)
        core.outcome(g[:2])
        if js.short(g) != w:
            return "%s\n%s, with %s\n  gives    %r\n  expected %r" % (tk.source(nodes, "js"), mode, js.source_of(c), g, w)
    if len(got) > len(ctxs):
        return "%r: global variables appeared: %r" % (case, got[-1])


def gen_modes(n, modes):
    def g(choose):
        mode = choose(modes)
        kind = choose(("nest", "scope", "text"))
        if kind == "nest":
            return mode, ("nest", tuple(choose(sorted(c20.CONS)) for _ in range(n)), choose(("ab", "content")))
        if kind == "scope":
            return mode, ("scope", tuple(choose(sorted(c20.SCOPE)) for _ in range(n)), choose(len(c20.USES)))
        return mode, ("text", "".join(choose([c for c in c20.CHARS if c not in "\r\x00"]) for _ in range(n)))
    return g


# ------------------------------------------------------------------- the command as a process
PROC = [
    ("<r>${v}</r>", None), ("<r>\u00e9\u2028\U0001f600${v}</r>", None), ("", None), ("<r><js:for each=\"i in [1, 2]\">$i</js:for></r>\n", None), ("<r>${v</r>", "fails"), ("<r></s></r>", "fails"), ("<r" + " " * 200 + ">" + "x" * 70000 + "${v}</r>", None),
]


def gen_process(choose):
    return choose(len(PROC)), choose(("new", "longer", "stdin", "stdout", "missing"))


def run_process(case):
    i, how = case
    src, fails = PROC[i]
    d = py.fresh_dir()
    a, b = os.path.join(d, "in put.html"), os.path.join(d, "out.js")
    if how != "missing":
        with open(a, "w", encoding="utf-8") as f:
            f.write(src)
    if how == "longer":
        with open(b, "w") as f:
            f.write("old " * 200000)
    core.step()
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "LC_ALL", "LANG")}
    env.update(PYTHONPATH=core.REPO, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, os.path.join(core.REPO, "bin/tonnikala-compile-jstemplate"), "-" if how == "stdin" else a, "-" if how == "stdout" else b],
                       input=src.encode() if how == "stdin" else b"", capture_output=True, env=env, timeout=60, cwd=d)
    if how == "missing" or fails:
        if r.returncode == 0 or not r.stderr:
            return "%r: exit code %r, %r" % (case, r.returncode, r.stderr)
        return None
    try:
        want = js.compile1(src)
    except Exception as e:
        return None if r.returncode else "%r: accepted by the command only" % (case,)
    if r.returncode:
        return "%r: exit code %r\n%s" % (case, r.returncode, r.stderr[-800:])
    out = r.stdout.decode("utf-8") if how == "stdout" else open(b, encoding="utf-8").read()
    results = [js.execute({"t": c}, [("t", "{v: '<'}", {})]) for c in (want, out)]
    core.outcome(str(results[1])[:50])
    if results[0] != results[1] or results[0][0][0] != "ok":
        return "%r: the command gives %r instead of %r\n%s" % (case, results[1], results[0], out[:300])


# ------------------------------------------------------------------- how much there is
SIZED = tuple("chain chain_def blocks defs depth_block depth_with depth_def children variables characters expressions dynamic_attributes name_def name_variable".split())


def gen_size(modes, deep):
    def gen(choose):
        kind, n = sizes.gen(SIZED, deep)(choose)
        mode = choose(modes)
        if mode == "command" and kind in ("chain", "chain_def") and n > 9:
            raise core.Skip()
        return kind, n, mode
    return gen


def run_size(case):
    kind, n, mode = case
    ts, ctx = sizes.case(kind, n)
    got = js.execute({k: code(v, mode) for k, v in ts.items()}, [("t", js.source_of(ctx), {})])
    want = [js.model_render(ts, "t", ctx)]
    core.outcome(tuple(got))
    if [js.short(g) for g in got] != want:
        return "%r\n  gives    %s\n  expected %s" % (case, str(got)[:600], str(want)[:600])


def suites(tier):
    deep = tier == "thorough"
    all_ = [None] + sorted(DEFS)
    some = [None, "block", "def", "calls", "nested"]
    three = ("plain", "minify", "mixed")
    rv = [
        core.Suite("one_level", gen(1, all_, (None, "z", "w"), sorted(BASES), three), run, "all definition forms over one level"),
        core.Suite("size", gen_size(MODES if deep else MODES[:2], deep), run_size, "%d kinds of templates of up to %d parts" % (len(SIZED), 1025 if deep else 257)),
        core.Suite("command", gen(1, some, (None, "w"), ["blocks", "def-call", "w"], ("command",)), run, "the same compiled by the command"),
        core.Suite("two_levels", gen(2, all_ if deep else some[:-1], (None, "z", "w") if deep else (None,), sorted(BASES) if deep else ["blocks", "nested", "def-call", "w", "loop"], three if deep else three[:2]), run, "chains of three templates"),
        core.Suite("inside1", gen_inside(1, sorted(c20.LEAVES), ("plain", "minify"), range(len(c20.USES)), (0, 1)), run_inside, "one construct in %d places of chains of templates" % len(c07.WHERE)),
        core.Suite("inside2", gen_inside(2, ["ab"] if not deep else sorted(c20.LEAVES), ("plain", "minify") if deep else ("plain",), [0, 2] if not deep else range(len(c20.USES)), (0, 1)), run_inside, "two nested constructs in the same places"),
        core.Suite("names", gen_names(2 if deep else 1), run_names, "%d names of blocks and defs" % len(c20.NAMES)),
        core.Suite("orders", gen_order(3 if deep else 2), run_order, "sequences of renderings of a chain and a sibling"),
        core.Suite("modes", gen_modes(3 if deep else 2, ("minify", "command") if deep else ("minify",)), run_modes, "minified output of other templates"),
        core.Suite("modes_command", gen_modes(1, ("command",)), run_modes, "the command on other templates"),
        core.Suite("process", gen_process, run_process, "the command as a process: files, standard input, errors"),
    ]
    if deep:
        rv.append(core.Suite("three_levels", gen(3, [None, "block", "def", "calls"], (None,), ["blocks", "nested", "def-call"], three[:2]), run, "chains of four templates"))
    return rv
