"""C14: FileLoader - reloading serves the current contents, otherwise one stable version."""
import errno
import os
import sys

from mc import clock, core, py

LOADER = None


def prepare():
    global LOADER
    clock.install()
    import tonnikala.loader
    import tonnikala.runtime.debug
    LOADER = tonnikala.loader


NAMES = ("a", "b", "c")
MISSING = -1


def contents(name, version):
    """a: plain with a block and a def; b: extends a; c: imports a"""
    if name == "a":
        return '<a>%d<py:block name="m">A%d</py:block><py:def function="f">F%d</py:def></a>' % (version, version, version)
    if name == "b":
        return '<py:extends href="a"><py:block name="m">B%d</py:block></py:extends>' % version
    return '<c>%d<py:import href="a" alias="i"/>${i.f()}</c>' % version


def expected(name, v):
    """output for the versions v of all files; None if a needed file is missing"""
    if v[name] == MISSING or v["a"] == MISSING:
        return None
    if name == "a":
        return "<a>%d" % v["a"] + "A%d</a>" % v["a"]
    if name == "b":
        return "<a>%dB%d</a>" % (v["a"], v["b"])
    return "<c>%dF%d</c>" % (v["c"], v["a"])


class World(object):
    """
    The files, the loader, and the model: which versions of each template the loader may
    serve.  A check happens with a load once the interval has passed since the last one.
    """

    def __init__(self, reload=True, relative=None):
        self.dir = py.fresh_dir()
        self.serial = 0
        self.mtime = 1700000000.0
        self.file = {}
        for n in NAMES:
            self.write(n)
        self.loader = LOADER.FileLoader([self.dir if relative is None else relative])
        self.reload = reload
        if reload:
            self.loader.set_reload(True)
        self.fresh = True              # within the interval since the last check
        self.since = {}                # versions used since the last check
        self.objects = {}              # template objects returned since the last check
        self.at_check = {n: None for n in NAMES}     # versions that were verified by the last check
        self.held = None               # version of a that b was last seen with

    def path(self, n):
        return os.path.join(self.dir, n)

    def write(self, n, delta=10.0, replace=False):
        self.serial += 1
        v = self.serial
        p = self.path(n)
        target = p + ".new" if replace else p
        with open(target, "w") as f:
            f.write(contents(n, v))
        self.mtime = t = self.mtime + delta if delta > 0 else self.mtime
        if delta < 0:
            t = 1600000000.0 - v
        os.utime(target, (t, t))
        if replace:
            os.rename(target, p)
        self.file[n] = v

    def delete(self, n):
        if os.path.exists(self.path(n)):
            os.unlink(self.path(n))
        self.file[n] = MISSING

    def tick(self, seconds=1.0):
        clock.advance(seconds)
        self.fresh = False

    def begin(self):
        """the model's part of a load: the check"""
        if self.reload and not self.fresh:
            self.fresh = True
            self.since, self.objects = {}, {}
            self.at_check = dict(self.file)
            self.all_current = True

    def allowed(self, n, for_=None):
        """versions of n that may be served now"""
        rv = [self.since[n]] if n in self.since else [self.file[n]]
        if n == "a" and for_ == "b" and self.held is not None and MISSING in (self.file[n], self.at_check[n]):
            rv.append(self.held)       # of a deleted parent the children keep what they had
        if n in self.since:
            return rv
        if self.at_check[n] is not None and self.at_check[n] not in rv:
            rv.append(self.at_check[n])
        return rv

    def use(self, n, v):
        if v != MISSING:
            self.since.setdefault(n, v)

    def load(self, n, inject=None):
        """loads and renders; None or a message"""
        self.begin()
        core.step(2)
        obj = None
        try:
            obj = self.loader.load(n)
            out = obj.render({})
        except OSError as e:
            if e.errno != errno.ENOENT:
                return "unexpected error %r" % e
            out = None
        core.outcome((n, out))
        return self.judge(n, obj, out)

    def judge(self, n, obj, out):
        deps = ["a"] if n == "a" else [n, "a"]
        wants = []
        for v1 in self.allowed(n):
            for v2 in self.allowed("a", n):
                v = {n: v1, "a": v2} if n != "a" else {"a": v1}
                wants.append((v, expected(n, v)))
        match = [v for v, w in wants if w == out]
        if not match:
            return "load %s gives %r, allowed are %r; files %r" % (n, out, [w for v, w in wants], self.file)
        if out is not None:
            for d in deps:
                if not (d == "a" and n == "b" and match[0]["a"] == self.held and match[0]["a"] != self.file["a"]):
                    self.use(d, match[0][d])
            if n == "b":
                self.held = match[0]["a"]
        if obj is not None:
            if n in self.objects and self.objects[n] is not obj:
                return "load %s gave another object although nothing was checked in between" % n
            self.objects[n] = obj

    def do(self, op):
        kind = op[0]
        if kind == "load":
            return self.load(op[1])
        if kind == "newer":
            self.write(op[1])
        elif kind == "ms":
            self.write(op[1], 0.01)
        elif kind == "older":
            self.write(op[1], -1)
        elif kind == "rename":
            self.write(op[1], 10.0, True)
        elif kind == "delete":
            self.delete(op[1])
        elif kind == "tick":
            self.tick()
        elif kind == "away":
            return self.away()
        elif kind == "half":
            clock.advance(0.01)
        else:
            raise AssertionError(op)


    def away(self):
        """loads everything, again with another working directory"""
        objects = {}
        for n in NAMES:
            self.tick()
            msg = self.load(n)
            if msg:
                return msg
            if n in self.objects:
                objects[n] = self.objects[n]
        cwd = os.getcwd()
        os.makedirs(os.path.join(self.dir, "elsewhere"), exist_ok=True)
        os.chdir(os.path.join(self.dir, "elsewhere"))
        try:
            for n in sorted(objects):
                self.tick()
                msg = self.load(n)
                if msg:
                    return "in another working directory: " + msg
                if self.objects[n] is not objects[n]:
                    return "another object for %s in another working directory" % n
        finally:
            os.chdir(cwd)


def ops(*text):
    return [tuple(t.split()) for t in text]


BASIC = ops("load a", "load b", "load c", "newer a", "older b", "older a", "delete a", "delete b", "tick")
MORE = BASIC + ops("ms a", "rename a", "newer c", "delete c", "half", "rename b")
SETUPS = {"none": [], "all": ops("load a", "load b", "load c"), "b": ops("load b"), "c,b": ops("load c", "load b"),
          "late": ops("tick", "load b", "load c", "tick")}


def gen(n, alphabet, setups, reload=(True,)):
    def g(choose):
        s, r = choose(setups), choose(reload)
        seq = []
        for i in range(n):
            op = choose(alphabet)
            if seq and op == seq[-1] and op[0] in ("tick", "half", "delete"):
                raise core.Skip()
            seq.append(op)
        return s, r, tuple(seq)
    return g


def run(case):
    s, r, seq = case
    w = World(r)
    for op in SETUPS[s]:
        msg = w.do(op)
        if msg:
            return "in the setup: " + msg
    for i, op in enumerate(seq):
        msg = w.do(op)
        if msg:
            return "after %r, %r: %s" % (SETUPS[s], seq[:i + 1], msg)
    # afterwards: everything is current once the interval has passed
    w.tick()
    if not r:
        return None
    for n in NAMES:
        msg = w.load(n)
        if msg:
            return "after %r, %r, tick: %s" % (SETUPS[s], seq, msg)


# relative search paths
def gen_relative(n, alphabet):
    def g(choose):
        return choose((".", "", "../%s", "./elsewhere/..")), tuple(choose(alphabet) for _ in range(n)), choose((True, False))
    return g


def run_relative(case):
    rel, seq, reload = case
    cwd = os.getcwd()
    d = py.fresh_dir()
    w = World(reload, rel % os.path.basename(d) if "%" in rel else rel)
    assert w.dir == d
    os.makedirs(os.path.join(d, "elsewhere"))
    os.chdir(d)
    try:
        for i, op in enumerate(seq + (("away",),)):
            msg = w.do(op)
            if msg:
                return "%r, after %r: %s" % (rel, seq[:i + 1], msg)
    finally:
        os.chdir(cwd)


QUICK = ("newer", "delete", "rename")


# a change at any point inside a load
def gen_inject(depth, setups, victims, how):
    def g(choose):
        s = choose(setups)
        pre = choose((None, ("tick",), ("newer", "a"), ("delete", "a")))
        tick = choose((False, True))
        n = choose(NAMES)
        inj = (choose(how), choose(victims))
        after = choose((None, "b") if how == QUICK else (None, "b", "c"))
        return s, pre, tick, n, inj, after, choose(range(depth))
    return g


class Injector(object):
    """performs an action before the k-th line executed in the loader module"""

    def __init__(self, k, action):
        self.k, self.action = k, action
        self.count = -1
        self.done = False
        self.filename = LOADER.__file__

    def call(self, frame, event, arg):
        if frame.f_code.co_filename != self.filename:
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line" or event == "return":
            self.count += 1
            if self.count == self.k and not self.done:
                self.done = True
                sys.settrace(None)
                self.action()
        return self.line

    def __enter__(self):
        sys.settrace(self.call)

    def __exit__(self, *a):
        sys.settrace(None)


def run_inject(case):
    s, pre, tick, n, inj, after, k = case
    w = World()
    for op in SETUPS[s]:
        w.do(op)
    if pre:
        w.do(pre)
    if tick:
        w.tick()
    w.begin()
    before = {m: w.allowed(m, n) for m in NAMES}
    injector = Injector(k, lambda: w.do(inj))
    core.step(2)
    out = obj = None
    with injector:
        try:
            obj = w.loader.load(n)
            out = obj.render({})
        except OSError as e:
            if e.errno != errno.ENOENT:
                return "unexpected error %r" % e
        except BaseException as e:
            return "unexpected error %r with %r before step %d of load %s" % (e, inj, k, n)
    if not injector.done:
        # the load is shorter than this
        return None
    # old or new versions, each, are fine for this load
    wants = []
    for v1 in before[n] + w.allowed(n):
        for v2 in before["a"] + w.allowed("a", n):
            wants.append(expected(n, {n: v1, "a": v2} if n != "a" else {"a": v1}))
    core.outcome((n, out))
    if out not in wants:
        return "with %r before step %d: load %s gives %r, allowed %r" % (inj, k, n, out, wants)
    # once the interval has passed everything is current
    w.tick()
    for m in ([after] if after else []) + list(NAMES):
        msg = w.load(m)
        if msg:
            return "after %r %r, with %r before step %d of load %s, tick: %s" % (SETUPS[s], pre, inj, k, n, msg)


# ------------------------- one file under several names, and its directory
ALIASES = ("s/x", "./s/x", "abs", "s/../s/x", "up")
ALIAS_OPS = [("load", n) for n in ALIASES] + [("write",), ("delete",), ("rmtree",), ("dirfile",), ("loop",), ("late",)]


def gen_aliases(n):
    def g(choose):
        names = choose((ALIASES[:3], ALIASES[2:]))
        return tuple(choose([o for o in ALIAS_OPS if o[0] != "load" or o[1] in names]) for _ in range(n)), choose(("once", "each"))
    return g


def run_aliases(case):
    """the interval passes before every load, so that all of them are current"""
    ops, first = case
    d = py.fresh_dir()
    sub, path = os.path.join(d, "s"), os.path.join(d, "s", "x")
    state = {"v": 0, "now": None, "late": False}

    def clear():
        if os.path.islink(sub) or os.path.isfile(sub):
            os.unlink(sub)
        elif os.path.isdir(sub):
            if os.path.exists(path):
                os.unlink(path)
            os.rmdir(sub)

    def write():
        if not os.path.isdir(sub):
            clear()
            os.mkdir(sub)
        state["v"] += 1
        with open(path, "w") as f:
            f.write('<p>%d<py:def function="f">F%d</py:def></p>' % (state["v"], state["v"]))
        os.utime(path, (1700000000 + 10 * state["v"],) * 2)
        state["now"] = state["v"]
    names = {"abs": path, "up": os.path.join("..", os.path.basename(d), "s", "x")}
    ld = LOADER.FileLoader([d])
    ld.set_reload(True)
    write()
    with open(os.path.join(d, "user"), "w") as f:
        f.write('<m><py:import href="s/x" alias="i"/>${i.f()}</m>')
    os.utime(os.path.join(d, "user"), (1600000000,) * 2)

    def load(name):
        clock.advance(1.0)
        core.step(2)
        want = None if state["now"] is None else "<p>%d</p>" % state["now"]
        if name == "user":
            want = None if state["now"] is None else "<m>F%d</m>" % state["now"]
        try:
            got = ld.load(names.get(name, name)).render({})
        except OSError as e:
            got = None if e.errno == errno.ENOENT else repr(e)
        except Exception as e:
            got = repr(e)
        core.outcome((name, got is None))
        if got != want:
            return "load(%r) gives %r, expected %r" % (name, got, want)
    done = []
    if first == "each":
        for n in ALIASES + ("user",):
            load(n)
    for op in ops:
        done.append(op)
        rv = None
        if op[0] == "load":
            rv = load(op[1])
        elif op[0] == "write":
            write()
        elif op[0] == "late":
            rv = load("user") if state["now"] else None
        else:
            state["now"] = None
            if op[0] == "delete":
                if os.path.exists(path):
                    os.unlink(path)
            else:
                clear()
                if op[0] == "dirfile":
                    with open(sub, "w") as f:
                        f.write("x")
                elif op[0] == "loop":
                    os.symlink("s", sub)
        if rv:
            return "%s, after %r: %s" % (first, done, rv)
    for rnd in (0, 1):
        for n in ALIASES + (("user",) if state["now"] else ()):
            rv = load(n)
            if rv:
                return "%s, after %r: %s" % (first, done, rv)
        write()


# a deep search over few operations
def gen_deep(n, alphabet):
    return gen(n, alphabet, ("all",))


# --- many templates in one loader
SIZES = (1, 2, 15, 31, 63, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 300, 499, 511, 512, 513)


def gen_many(sizes):
    def g(choose):
        return choose(sizes), choose((0, 1, 2)), choose(("nothing", "change", "delete", "recreate")), choose((True, False))
    return g


def run_many(case):
    size, which, what, reload = case
    which = (0, size // 2, size - 1)[which]
    clock.advance(10)
    d = py.fresh_dir()
    py.write_files(d, {"t%d" % i: "<p>%d</p>" % i if i % 7 else '<py:extends href="t%d"><py:block name="b"/></py:extends>' % (i + 1) for i in range(size + 1)})
    ld = LOADER.FileLoader([d])
    ld.set_reload(reload)

    def check(objects, i, missing=(), text=None):
        core.step()
        try:
            t = ld.load("t%d" % i)
            out = t.render({})
        except OSError:
            t, out = None, None
        n = i + 1 if i % 7 == 0 else i
        want = None if i in missing else text if text is not None and n == which else "<p>%d</p>" % n
        if out != want:
            return "%r: load(t%d) gives %r, expected %r" % (case, i, out, want)
        if i in objects and objects[i] is not t:
            return "%r: load(t%d) gives another object" % (case, i)
        objects[i] = t

    objects = {}
    for order in (range(size), range(size), reversed(range(size))):
        for i in order:
            msg = check(objects, i)
            if msg:
                return msg
    path = os.path.join(d, "t%d" % which)
    text = None
    if what == "change":
        text = "<p>changed</p>" if which % 7 else None
        with open(path, "w") as f:
            f.write(text or '<py:extends href="t%d"><py:block name="c"/></py:extends>' % (which + 1))
        os.utime(path, (1800000000, 1800000000))
    elif what != "nothing":
        os.unlink(path)
    # nothing is checked yet, or ever
    for i in range(size):
        msg = check(objects, i)
        if msg:
            return msg
    clock.advance(1)
    missing = (which,) if what in ("delete", "recreate") and reload else ()
    if reload and what != "nothing":
        keep = objects if what != "change" else {}
        keep.pop(which, None)
        # the children of a deleted template may keep it; which of them were loaded is known
        keep.pop(which - 1, None)
        objects = keep
    for i in range(size):
        if missing and i == which - 1 and i % 7 == 0:
            continue
        msg = check(objects, i, missing, text if reload else None)
        if msg:
            return msg
    if what == "recreate":
        with open(path, "w") as f:
            f.write("<p>again</p>")
        clock.advance(1)
        objects = {} if reload else objects
        for i in range(size):
            if which % 7 == 0 and i == which and reload:
                t = ld.load("t%d" % i)
                if t.render({}) != "<p>again</p>":
                    return "%r: load(t%d) after it was created again gives %r" % (case, i, t.render({}))
                continue
            msg = check(objects, i, (), "<p>again</p>" if reload else None)
            if msg:
                return msg
    core.outcome((what, reload, size))


def suites(tier):
    deep = tier == "thorough"
    rv = [
        core.Suite("sequences", gen(4 if not deep else 5, BASIC, ("none", "all") if not deep else ("none", "all", "late")), run, "all sequences of loads, changes, deletions and ticks"),
        core.Suite("more_operations", gen(3 if not deep else 4, MORE, sorted(SETUPS) if deep else ("all", "late")), run, "with small mtime changes, renames ..."),
        core.Suite("one_dependency", gen(6 if not deep else 7, ops("load b", "newer a", "delete a", "tick"), ("all",)), run, "long histories of a template and its parent"),
        core.Suite("no_reload", gen(3 if not deep else 4, BASIC, ("none", "all"), (False,)), run, "reloading disabled"),
        core.Suite("many", gen_many(SIZES + ((1000, 1023, 1024, 1025, 2050) if deep else ())), run_many, "loaders with up to %d templates" % (2050 if deep else 513)),
        core.Suite("aliases", gen_aliases(4 if deep else 3), run_aliases, "a file under several names; its directory removed, or replaced by a file or a link"),
        core.Suite("relative_path", gen_relative(4 if deep else 3, BASIC + ops("away", "rename a") if deep else ops("load a", "load b", "newer a", "delete a", "tick", "away")), run_relative,
                   "relative search paths, with loads under another working directory"),
        core.Suite("inside_load", gen_inject(60, ("none", "all") if not deep else sorted(SETUPS), ("a", "b") if not deep else NAMES,
                                             ("newer", "older", "rename", "delete") if deep else QUICK), run_inject,
                   "one change at every line executed by the loader during load and render"),
    ]
    return rv
