"""C16: loading and rendering from several threads."""
import os
import sys

from mc import clock, core, py, sched

LOADER = None
ROOT = None


def prepare():
    global LOADER, ROOT
    clock.install()
    sched.install()
    import tonnikala.loader
    import tonnikala.runtime.debug
    import tonnikala.languages.javascript.generator
    LOADER = tonnikala.loader
    remember_modules()
    ROOT = os.path.dirname(os.path.abspath(tonnikala.__file__)) + os.sep


_modules = {}
CONTAINERS = (dict, list, set)


def remember_modules():
    """the global variables of the package before anything was used"""
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "tonnikala" and m is not None:
            _modules[m] = {k: (v, v.copy() if type(v) in CONTAINERS else None) for k, v in vars(m).items() if not k.startswith("__")}


def reset_modules():
    for m, names in _modules.items():
        d = vars(m)
        for k in [k for k in d if not k.startswith("__") and k not in names and not isinstance(d[k], type(sys))]:
            del d[k]
        for k, (v, copy) in names.items():
            if copy is not None and v != copy:
                v.clear()
                v.extend(copy) if isinstance(v, list) else v.update(copy)
            d[k] = v


def is_template(fn):
    return fn.startswith(core.scratch) and not fn.endswith(".py") or fn.startswith("tpl")


def coarse(fn):
    """the loader, the runtime and the templates"""
    return is_template(fn) or fn.startswith(ROOT) and ("runtime" in fn or os.path.basename(fn) in ("loader.py", "helpers.py"))


def everything(fn):
    return is_template(fn) or fn.startswith(ROOT)


def loader_only(fn):
    return fn == LOADER.__file__


FILES = {
    "a": '<a>1<py:block name="m">$v</py:block><py:def function="f(x=None)">F${x or v}</py:def></a>',
    "b": '<py:extends href="a"><py:block name="m">B$v${f(v)}</py:block></py:extends>',
    "c": '<c k="$v"><py:import href="a" alias="i"/>${i.f()}<i py:for="q in w">${i.f(q)}</i></c>',
    "d": '<py:extends href="b"><py:import href="c" alias="z"/><py:def function="f(x)">D$x</py:def></py:extends>',
    "r": '<r><py:with vars="t=v*2"><i py:for="q in w" py:attrs="{\'n\': q}">$t$q</i></py:with><py:def function="g(y)"><b>$y$v</b></py:def>${g(v)}${g(g(1))}</r>',
    "e": '<e>$v\n${boom(v)}</e>',
    "t": '<t><py:block name="m">$v</py:block></t>',
    "u": '<py:extends href="t"><py:block name="m">U$v</py:block></py:extends>',
    "n": '<n py:attrs="dict(k=len(w))">${len(w)}${sorted(w, key=str)[0]}<i py:for="i, q in enumerate(w)"><b py:if="isinstance(q, str)"/>${literal("&lt;")}${gettext("x")}</i></n>',
    "bad": '<a>\n${</a>',
}


class Boom(Exception):
    pass


class World(object):
    """one run: a loader over new files; records the objects that loads return"""

    def __init__(self, files, reload=False, preload=(), cold=False):
        self.dir = py.fresh_dir()
        py.write_files(self.dir, {n: FILES[n] for n in files})
        self.mtime = 1600000000.0
        for n in files:
            os.utime(os.path.join(self.dir, n), (self.mtime, self.mtime))
        self.loader = LOADER.FileLoader([self.dir])
        self.loader.set_reload(reload)
        self.objects = {}
        self.templates = {}
        for n in preload:
            self.templates[n] = self.loader.load(n)
            self.templates[n].render(dict(v="0", w="x", boom=str))
        if cold:
            reset_modules()

    def ident(self, name, obj):
        ids = self.objects.setdefault(name, [])
        for i, o in enumerate(ids):
            if o is obj:
                return i
        ids.append(obj)
        return len(ids) - 1


def ctx(i):
    err = Boom(i)

    def boom(v):
        raise err
    return dict(v="<%d>" % i, w=["x", i], boom=boom), err


def op(world, i, o):
    """one operation of thread i; a comparable result"""
    kind, name = o[0], o[1]
    try:
        if kind == "load":
            t = world.loader.load(name)
            return "object", t
        c, err = ctx(i)
        if kind == "use":
            t = world.loader.load(name)
            return "object", t, t.render(c)
        if kind == "render":
            return world.templates[name].render(c, *o[2:])
        if kind == "string":
            return LOADER.Loader(translatable="tr" in o).load_string(FILES[name], "tpl" + name).render(c)
        if kind == "js":
            return LOADER.JSLoader().load_string(o[2], "tpljs")
        if kind == "write":
            p = os.path.join(world.dir, name)
            with open(p + ".new", "w") as f:
                f.write(FILES[name].replace("1", "2"))
            os.utime(p + ".new", (world.mtime + 10, world.mtime + 10))
            os.rename(p + ".new", p)
            return "written"
        if kind == "delete":
            os.unlink(os.path.join(world.dir, name))
            return "deleted"
        if kind == "tick":
            clock.advance(5)
            return "tick"
        raise AssertionError(o)
    except Boom as e:
        tb, lines = e.__traceback__, []
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.endswith(name):
                lines.append(tb.tb_lineno)
            tb = tb.tb_next
        return "boom", e is err, tuple(lines)
    except OSError as e:
        return "oserror", e.errno
    except Exception as e:
        return type(e).__name__, getattr(e, "lineno", None), str(e).replace(world.dir, "")


# name: (files, reload, preloaded, setup operations, operations of the threads, names loaded afterwards)
SCENARIOS = {
    "same": (("a",), 0, (), (), [[("use", "a")], [("use", "a")]], ("a",)),
    "parent": (("a", "b"), 0, (), (), [[("use", "b")], [("use", "a")]], ("a", "b")),
    "children": (("a", "b", "c"), 0, (), (), [[("use", "b")], [("use", "c")]], ("a", "b", "c")),
    "samechild": (("a", "b"), 0, (), (), [[("use", "b")], [("use", "b")]], ("a", "b")),
    "deep": (("a", "b", "c", "d"), 0, (), (), [[("use", "d")], [("use", "c")]], ("d",)),
    "preloaded": (("a", "b"), 0, ("a",), (), [[("use", "b")], [("use", "a"), ("load", "b")]], ("a",)),
    "changed": (("a", "b"), 1, ("a", "b"), (("write", "a"), ("tick", "")), [[("use", "b")], [("use", "a")]], ("a", "b")),
    "changed2": (("a", "b"), 1, ("b",), (("write", "b"), ("tick", "")), [[("use", "b")], [("use", "b")]], ("a", "b")),
    "deleted": (("a", "b"), 1, ("a", "b"), (("delete", "b"), ("tick", "")), [[("use", "a")], [("use", "b")]], ("a", "b")),
    "recreated": (("a", "b"), 1, ("a", "b"), (("delete", "a"), ("tick", ""), ("load", "b"), ("write", "a"), ("tick", "")), [[("use", "b")], [("use", "a")]], ("a", "b")),
    "writer": (("a", "b"), 1, ("a", "b"), (("tick", ""),), [[("use", "b")], [("write", "a"), ("use", "a")]], ("a", "b")),
    "deleter": (("a", "c"), 1, ("a",), (("tick", ""),), [[("use", "a"), ("load", "c")], [("delete", "c"), ("load", "a")]], ("a", "c")),
    "missing": (("b",), 0, (), (), [[("use", "b")], [("use", "a")]], ("b",)),
    "failing": (("a", "bad"), 0, (), (), [[("load", "bad"), ("load", "a")], [("load", "bad")]], ("a", "bad")),
    "render": (("r",), 0, ("r",), (), [[("render", "r")], [("render", "r")]], ("r",)),
    "rendertwo": (("a", "c", "r"), 0, ("a", "c", "r"), (), [[("render", "c")], [("render", "a", "f")]], ("r",)),
    "renderchild": (("a", "b"), 0, ("a", "b"), (), [[("render", "b")], [("render", "a")]], ("b",)),
    "errors": (("e",), 0, (), (), [[("use", "e")], [("use", "e")]], ("e",)),
    "three": (("a", "b"), 0, (), (), [[("use", "a")], [("use", "b")], [("load", "a")]], ("a", "b")),
    "threerender": (("a", "b"), 0, ("a", "b"), (), [[("render", "b")], [("render", "a")], [("render", "a", "m")]], ("b",)),
    "twice": (("t",), 0, (), (), [[("use", "t")], [("use", "t")]], ("t",)),
    "render2": (("t", "u"), 0, ("t", "u"), (), [[("render", "u")], [("render", "t", "m")]], ("u",)),
    "tiny": ((), 0, (), (), [[("string", "t")], [("string", "bad")]], ()),
    "tinyjs": ((), 0, (), (), [[("js", "x", '<a>$c</a>')], [("js", "y", '<a><py:if test="b">1</py:if></a>')]], ()),
    "cold": (("n",), 0, ("n",), (), [[("render", "n")], [("render", "n")]], ("n",)),
    "colderrors": (("e",), 0, ("e",), (), [[("render", "e")], [("render", "e")]], ("e",)),
    "coldload": (("n", "e"), 0, (), (), [[("use", "n")], [("use", "e")]], ("n", "e")),
    "strings": ((), 0, (), (), [[("string", "a")], [("string", "e")]], ()),
    "strings2": ((), 0, (), (), [[("string", "a", "tr")], [("string", "bad")]], ()),
    "js": ((), 0, (), (), [[("js", "x", '<a><js:if test="b">$c</js:if></a>')], [("js", "y", '<a><js:def function="f(x)">$x$y</js:def></a>')]], ()),
}
# not in the quick tier
HEAVY = ("deep", "strings", "strings2", "js", "preloaded", "rendertwo", "changed", "children")
# these start before anything was ever rendered in the process
COLD = ("same", "strings", "strings2", "tiny", "tinyjs", "js", "cold", "colderrors", "coldload")


def make(name):
    files, reload, preload, setup, threads, after = SCENARIOS[name]
    w = World(files, bool(reload), preload, name in COLD)
    for o in setup:
        op(w, 9, o)
    return w


def finish(name, w, results):
    """everything observable of a run"""
    def norm(o, r):
        if isinstance(r, tuple) and r and r[0] == "object":
            return ("object", w.ident(o[1], r[1])) + r[2:]
        return r

    threads = SCENARIOS[name][4]
    out = tuple(tuple(norm(o, r) for o, r in zip(t, rs)) if isinstance(rs, list) else rs for t, rs in zip(threads, results))
    # the numbering of objects depends on the order of the threads: only which are equal counts
    seen = {}

    def renumber(o, r):
        if isinstance(r, tuple) and r and r[0] == "object":
            return ("object", seen.setdefault((o[1], r[1]), len([k for k in seen if k[0] == o[1]]))) + r[2:]
        return r

    out = tuple(tuple(renumber(o, r) for o, r in zip(t, rs)) if not (rs and rs[0] == "unexpected") else tuple(rs) for t, rs in zip(threads, out))
    w.loader_after = []
    clock.advance(5)
    for n in SCENARIOS[name][5]:
        r = op(w, 7, ("use", n))
        w.loader_after.append(r[2] if r[0] == "object" else r)
    return out, tuple(w.loader_after)


_allowed = {}


def allowed(name):
    """the outcomes of all sequential orders of the operations"""
    if name not in _allowed:
        rv = set()
        threads = SCENARIOS[name][4]
        for m in sched.merges([len(t) for t in threads]):
            w = make(name)
            pos = [0] * len(threads)
            results = [[] for t in threads]
            for i in m:
                results[i].append(op(w, i, threads[i][pos[i]]))
                pos[i] += 1
            rv.add(finish(name, w, results))
        _allowed[name] = rv
    return _allowed[name]


def execute(name, order, plan, traced, opcodes):
    """one schedule; (message or None, number of steps)"""
    w = make(name)
    threads = SCENARIOS[name][4]
    s = sched.Scheduler([lambda i=i, t=t: [op(w, i, o) for o in t] for i, t in enumerate(threads)], order, dict(plan), traced, opcodes)
    results = s.run()
    core.step(s.step)
    if s.deadlock is not None:
        return "deadlock of the threads %r" % s.deadlock, s.who, s.switched
    try:
        got = finish(name, w, results)
    except sched.Deadlock as e:
        return str(e), s.who, s.switched
    core.outcome((name, got))
    if got not in allowed(name):
        return "gives %r\n  allowed is\n  %s" % (got, "\n  ".join(map(repr, sorted(allowed(name), key=repr)))), s.who, s.switched
    return None, s.who, s.switched


MODES = {"coarse": (coarse, False), "everything": (everything, False), "bytecode": (loader_only, True)}


def orders(name):
    """orders of starting the threads; threads that do the same need only one"""
    threads = SCENARIOS[name][4]
    rv, seen = [], set()
    for o in sched.orders(len(threads)):
        k = tuple(map(repr, (threads[i] for i in o)))
        if k not in seen:
            seen.add(k)
            rv.append(o)
    return rv


def run(case):
    """bound 1: the given preemption; bound 2: it and every later one"""
    name, order, mode, bound, first = case
    traced, opcodes = MODES[mode]
    plan = [] if first is None else [first]
    msg, who, switched = execute(name, order, plan, traced, opcodes)
    if msg:
        return "scenario %s, order %r, preemptions %r (%s): %s" % (name, order, plan, mode, msg)
    if bound < 2 or first is None or not switched:
        return None
    n = len(SCENARIOS[name][4])
    for k in range(first[0] + 1, len(who)):
        for t in range(n):
            if t == who[k]:
                continue
            msg, _, sw = execute(name, order, plan + [(k, t)], traced, opcodes)
            if msg:
                return "scenario %s, order %r, preemptions %r (%s): %s" % (name, order, plan + [(k, t)], mode, msg)


def gen(names, mode, bound, first=None):
    """all single preemptions (`first`: only at the first so many steps)"""
    traced, opcodes = MODES[mode]
    counts = {}
    for name in names:
        try:
            allowed(name)
            execute(name, orders(name)[0], [], traced, opcodes)
        except Exception:
            pass
        for order in orders(name):
            try:
                msg, who, _ = execute(name, order, [], traced, opcodes)
            except Exception:
                who = []
            counts[name, order] = who

    def g(choose):
        name = choose(names)
        order = choose(orders(name))
        who = counts[name, order]
        k = choose(len(who) + 1) - 1
        if k < 0:
            return name, order, mode, bound, None
        return name, order, mode, bound, (k, choose([t for t in range(len(order)) if t != who[k]]))
    return g


def suites(tier):
    deep = tier == "thorough"
    every = sorted(SCENARIOS)
    two = [n for n in every if len(SCENARIOS[n][4]) == 2]
    files = [n for n in two if SCENARIOS[n][0]]
    return [
        core.Suite("one_preemption", gen(every if deep else [n for n in every if n not in HEAVY], "coarse", 1), run, "every schedule with one preemption at a line of the loader, the runtime or a template"),
        core.Suite("bytecodes", gen(files if deep else ["changed", "deleted", "recreated", "samechild"], "bytecode", 1), run, "every schedule with one preemption between two bytecodes of the loader"),
        core.Suite("two_preemptions", gen(two if deep else ["twice", "render2"], "coarse", 2), run, "every schedule with two preemptions"),
        core.Suite("compiler", gen(["strings", "strings2", "js", "same", "errors"] if deep else ["tiny"], "everything", 1), run, "one preemption at any line of the package, while compiling"),
    ]
