"""C15: template lookup - absolute paths, search paths in order, one object per template."""
import errno
import os

from mc import clock, core, py

PATHS = ("p", "q", "r")


def prepare():
    clock.install()
    import tonnikala.loader


def write(d, path, name, text):
    full = os.path.join(d, path, name)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    with open(full, "w") as f:
        f.write(text)
    return full


def text(path, name):
    return "<a>%s:%s</a>" % (path, name)


def load(ld, name):
    """('ok', template, output), ('missing', None, None) or ('bad', None, None)"""
    from tonnikala.runtime.exceptions import TemplateSyntaxError
    core.step(2)
    try:
        t = ld.load(name)
    except OSError as e:
        if e.errno != errno.ENOENT:
            return "errno %r" % e.errno, None, None
        if name not in str(e):
            return "error %s does not name %s" % (e, name), None, None
        return "missing", None, None
    except TemplateSyntaxError:
        return "bad", None, None
    return "ok", t, t.render({})


# --- which file a name denotes, for every placement of files and order of paths
FILES = ("x", "s/x", "y")


def gen_lookup(files, orders, forms):
    def g(choose):
        placement = tuple(tuple(choose((0, 1)) for f in files) for p in PATHS)
        return files, placement, choose(orders), choose(forms)
    return g


# (given to the constructor, added one at a time, added together)
ORDERS = [(("p", "q", "r"), (), ()), (("r", "q", "p"), (), ()), (("q", "p"), ("r",), ()), ((), ("p", "q", "r"), ()),
          ((), (), ("q", "r", "p")), (("r",), ("p",), ("q",)), (("p",), (), ()), ((), (), ()), (("p", "p"), ("q",), ("p",)),
          (("none", "q"), ("p",), ())]
FORMS = ("plain", "dot", "up", "relative", "abs", "slash")


def run_lookup(case):
    files, placement, order, form = case
    from tonnikala.loader import FileLoader
    d = py.fresh_dir()
    for p in PATHS:
        os.mkdir(os.path.join(d, p))
    have = {}
    for p, row in zip(PATHS, placement):
        for f, yes in zip(files, row):
            if yes:
                have[p, f] = write(d, p, f, text(p, f))
    cwd = os.getcwd()
    os.chdir(d)
    try:
        where = (lambda p: p) if form == "relative" else (lambda p: p + "/") if form == "slash" else (lambda p: os.path.join(d, p))
        ld = FileLoader([where(p) for p in order[0]]) if order[0] else FileLoader()
        for p in order[1]:
            ld.add_path(where(p))
        if order[2]:
            ld.add_path(*[where(p) for p in order[2]])
        seen = {}
        for rnd in (0, 1):
            for f in files:
                full = next((have[p, f] for p in order[0] + order[1] + order[2] if (p, f) in have), None)
                p0 = next((p for p in order[0] + order[1] + order[2] if (p, f) in have), None)
                name = f
                if form == "dot":
                    name = "./" + f
                elif form == "up":
                    # the directory must exist for the name to
                    name = "s/../" + f
                    full = p0 = None
                    for p in order[0] + order[1] + order[2]:
                        if os.path.exists(os.path.abspath(os.path.join(d, p, name))):
                            full, p0 = have[p, f], p
                            break
                elif form == "abs":
                    # an absolute path is looked up as such
                    p0 = PATHS[len(f) % 3]
                    name = os.path.join(d, p0, f)
                    full = have.get((p0, f))
                status, t, out = load(ld, name)
                want = ("ok", text(p0, f)) if full else ("missing", None)
                core.outcome((status, out))
                if (status, out) != want:
                    return "%r of %r in %r: load(%r) gives %r, expected %r" % (placement, files, order, name, (status, out), want)
                if t is not None:
                    if rnd and seen[name][0] is not t:
                        return "load(%r) gave a new object" % name
                    for n2, (t2, p2) in seen.items():
                        if p2 != full and t2 is t:
                            return "%r and %r share a template" % (name, n2)
                    seen[name] = t, full
    finally:
        os.chdir(cwd)


# --- absolute names, and names that leave the search path
# d is the directory of the case; o is outside all search paths
ABS = ("@/p/x", "@/p/./x", "@/p/../p/x", "@//p/x", "@/o/x", "@/o/../p/x", "/x", "//x", "/p/x", "@/p/s/x", "@x", "/", "@/p", "@/nowhere/x", "../o/x", "../p/x", "../../@/o/x", "x", "s/x",
       "./x", "s//x", "x/", "x/../x", "", ".", "~/x", "$HOME/x", "X", "x ", " x", "x.tk", "%78", "p/x", "p:x", "s\\\\x", "*", "x\x00")


def gen_absolute(choose):
    return choose(ABS), choose((("p",), ("q",), ("q", "p"), ("",), (".",), ("/",), ("", "p"), ("o/../p",), ("@x",))), tuple(choose((0, 1)) for _ in range(4)), choose(("abs", "rel"))


def run_absolute(case):
    name, paths, place, how = case
    from tonnikala.loader import FileLoader
    d = py.fresh_dir()
    for p in "pqo":
        os.mkdir(os.path.join(d, p))
    for (p, f), yes in zip((("p", "x"), ("q", "x"), ("o", "x"), ("p", "s/x")), place):
        if yes:
            write(d, p, f, text(p, f))
    name = name.replace("../../@", "../.." + "/.." * d.count("/") + d).replace("@", d)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        where = [os.path.join(d, p.replace("@x", "none")) if how == "abs" and p != "/" else p.replace("@x", "none") for p in paths]
        ld = FileLoader(where)
        # what the name denotes
        full = None
        for c in [name] if name.startswith("/") else [os.path.abspath(os.path.join(w, name)) for w in where]:
            if "\0" not in c and os.path.exists(c):
                full = c
                break
        if full and os.path.isdir(full):
            return None
        want = ("missing", None)
        if full:
            with open(full) as f:
                want = "ok", f.read()
        for rnd in (0, 1):
            try:
                status, t, out = load(ld, name)
            except ValueError:
                if "\0" not in name:
                    raise
                return None
            core.outcome((status, out))
            if (status, out) != want:
                return "load(%r) with search paths %r, files %r gives %r, expected %r" % (name, where, place, (status, out), want)
    finally:
        os.chdir(cwd)


# --- histories of loads, file creations, failing templates and added paths
OPS = [("load", "x"), ("load", "y"), ("load", "s/x"), ("make", "q", "x"), ("make", "q", "y"), ("make", "r", "y"), ("bad", "p", "x"), ("bad", "q", "y"),
       ("good", "p", "x"), ("add", "q"), ("add", "r"), ("loadabs", "q", "y"), ("make", "p", "s/x")]


def gen_history(n, reload):
    def g(choose):
        return choose(reload), tuple(choose(OPS) for _ in range(n))
    return g


def run_history(case):
    """
    p is a search path from the start.  Names already loaded stay what they are (files are
    changed only as long as they were not loaded successfully).
    """
    from tonnikala.loader import FileLoader
    reload, ops = case
    d = py.fresh_dir()
    for p in PATHS:
        os.mkdir(os.path.join(d, p))
    ld = FileLoader([os.path.join(d, "p")])
    if reload:
        ld.set_reload(True)
    paths = ["p"]
    files = {}
    loaded = {}
    done = []
    for op in ops + (("load", "x"), ("load", "y"), ("load", "s/x"), ("load", "nowhere")):
        done.append(op)
        k = op[0]
        if k in ("make", "bad", "good"):
            p, f = op[1:]
            if any(path == (p, f) for path, t in loaded.values()):
                continue
            files[p, f] = text(p, f) if k != "bad" else "<a>${</a>"
            write(d, p, f, files[p, f])
        elif k == "add":
            ld.add_path(os.path.join(d, op[1]))
            paths.append(op[1])
        else:
            if k == "load":
                name = op[1]
                key = next(((p, name) for p in paths if (p, name) in files), None)
            else:
                name = os.path.join(d, op[1], op[2])
                key = op[1:] if op[1:] in files else None
            old = loaded.get(name)
            if old is not None:
                key = old[0]
            want = ("missing", None) if key is None else ("bad", None) if "$" in files[key] else ("ok", files[key])
            status, t, out = load(ld, name)
            core.outcome((status, out))
            if (status, out) != want:
                return "%r: load(%r) gives %r, expected %r" % (done, name, (status, out), want)
            if t is not None:
                if old is not None and old[1] is not t:
                    return "%r: load(%r) gave a new object" % (done, name)
                for n2, (k2, t2) in loaded.items():
                    if k2 != key and t2 is t:
                        return "%r: %r and %r share a template" % (done, name, n2)
                loaded[name] = key, t


# --- lookup of extended and imported templates is by the same rules
def gen_nested(choose):
    return tuple(choose((0, 1)) for _ in range(6)), choose((("p", "q"), ("q", "p"))), choose(("x", "./x", "s/x", "abs", "missing")), choose((0, 1))


def run_nested(case):
    from tonnikala.loader import FileLoader
    place, order, href, sub = case
    d = py.fresh_dir()
    have = set()
    for (p, f), yes in zip([(p, f) for p in "pq" for f in ("x", "s/x")], place):
        if yes:
            have.add((p, f))
            write(d, p, f, '<a>%s:%s<py:def function="f">F%s:%s</py:def></a>' % (p, f, p, f))
    h = os.path.join(d, "p", "x") if href == "abs" else href
    name = "s/main" if sub else "main"
    write(d, "p" if place[4] else "q", name, '<m><py:import href="%s" alias="i"/>${i.f()}</m>' % h if place[5] else '<py:extends href="%s"></py:extends>' % h)
    ld = FileLoader([os.path.join(d, p) for p in order])
    # names are relative to the search paths, not to the template
    key = ("p", "x") if href == "abs" else next(((p, href.replace("./", "")) for p in order if (p, href.replace("./", "")) in have), None)
    if key not in have:
        key = None
    core.step(2)
    try:
        out = ld.load(name).render({})
    except OSError as e:
        out = e.errno
    want = errno.ENOENT if key is None else "<m>F%s:%s</m>" % key if place[5] else "<a>%s:%s</a>" % key
    core.outcome(out)
    if out != want:
        return "gives %r, expected %r" % (out, want)
    if key and ld.load(h) is not ld.load(h):
        return "not the same object"


# --- several loaders: each has paths and templates of its own
WORLD = {("p", "x"): "<a>px</a>", ("q", "x"): "<a>qx</a>", ("q", "y"): "<a>qy</a>", ("r", "y"): "<a>ry</a>", ("r", "x"): None,
         ("p", "e"): '<py:extends href="y"></py:extends>', ("r", "e"): '<py:extends href="x"></py:extends>',
         ("q", "i"): '<a><py:import href="y" alias="m"/>${m.__main__()}</a>', ("p", "i"): '<a><py:import href="x" alias="m"/>${m.__main__()}</a>'}
WORLD = {k: v for k, v in WORLD.items() if v}
NEEDS = {("p", "e"): "y", ("r", "e"): "x", ("q", "i"): "y", ("p", "i"): "x"}
# how the loaders get their first paths
TWO = {
    "one list": lambda d: (lambda l: (l, l))([d + "/q"]),
    "one tuple": lambda d: (lambda l: (l, l))((d + "/p", d + "/r")),
    "iterator": lambda d: (iter([d + "/q"]), iter([d + "/p"])),
    "different": lambda d: ([d + "/p"], [d + "/q"]),
    "defaults": lambda d: (None, None),
    "paths of the other": lambda d: ([d + "/p", d + "/q"], "other"),
}
FIRST = {"one list": ("q", "q"), "one tuple": ("pr", "pr"), "iterator": ("q", "p"), "different": ("p", "q"), "defaults": ("", ""), "paths of the other": ("pq", "pq")}
TWO_OPS = [(k, a) for k in (0, 1) for a in ("add p", "add q", "add r", "x", "y", "e", "i")]


def gen_two(n, ops):
    def g(choose):
        return choose(sorted(TWO)), tuple(choose(ops) for _ in range(n))
    return g


def run_two(case):
    from tonnikala.loader import FileLoader
    how, ops = case
    d = py.fresh_dir()
    for p in PATHS:
        os.mkdir(os.path.join(d, p))
    for (p, f), content in WORLD.items():
        write(d, p, f, content)
    a, b = TWO[how](d)
    first = FileLoader(a) if a is not None else FileLoader()
    second = FileLoader(first.paths if b == "other" else b) if b is not None else FileLoader()
    loaders = first, second
    paths = [list(x) for x in FIRST[how]]
    cached = [{}, {}]

    def find(k, name):
        if name not in cached[k]:
            p = next((p for p in paths[k] if (p, name) in WORLD), None)
            if p is None:
                return None
            cached[k][name] = p
        return cached[k][name]

    def expect(k, name):
        p = find(k, name)
        if p is None:
            return None
        if (p, name) not in NEEDS:
            return WORLD[p, name]
        other = expect(k, NEEDS[p, name])
        return other if other is None or name == "e" else "<a>%s</a>" % other

    objects = {}
    end = tuple((k, n) for k in (0, 1) for n in "xyei")
    for i, (k, op) in enumerate(ops + end):
        if op.startswith("add"):
            loaders[k].add_path(d + "/" + op[-1])
            paths[k].append(op[-1])
            continue
        core.step(2)
        try:
            t = loaders[k].load(op)
            if objects.setdefault((k, op), t) is not t:
                return "%s, %r: loader %d gave another object" % (how, (ops + end)[:i + 1], k)
            if any(o is t for (k2, n2), o in objects.items() if (k2, n2) != (k, op)):
                return "%s, %r: a template of two loaders or names" % (how, (ops + end)[:i + 1])
            out = t.render({})
        except OSError as e:
            out = None if e.errno == errno.ENOENT else repr(e)
        want = expect(k, op)
        core.outcome(out)
        if out != want:
            return "%s, %r: gives %r, expected %r" % (how, (ops + end)[:i + 1], out, want)
    for (k, name), t in objects.items():
        try:
            out = t.render({})
        except OSError as e:
            out = None if e.errno == errno.ENOENT else repr(e)
        if out != expect(k, name):
            return "%s, %r: afterwards, %s of loader %d gives %r, expected %r" % (how, ops + end, name, k, out, expect(k, name))


def suites(tier):
    deep = tier == "thorough"
    return [
        core.Suite("lookup", gen_lookup(FILES[:2], ORDERS, FORMS), run_lookup, "every placement of two files in three search paths, orders of adding them, forms of the name"),
        core.Suite("absolute", gen_absolute, run_absolute, "absolute names, unusual names and search paths"),
        core.Suite("histories", gen_history(5 if deep else 4, (False, True)), run_history, "loads, creations, broken templates and added paths"),
        core.Suite("nested", gen_nested, run_nested, "names in py:extends and py:import"),
        core.Suite("two_loaders", gen_two(4, TWO_OPS) if deep else gen_two(3, [o for o in TWO_OPS if o[1] not in ('add q', 'i')]), run_two, "histories over two loaders, with shared or own paths"),
    ] + ([core.Suite("lookup3", gen_lookup(FILES, ORDERS, FORMS), run_lookup, "three files")] if deep else [])
