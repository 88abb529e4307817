"""C17: rendering has no memory and no side effects."""
import collections
import copy
import types

from mc import core, py

# templates in one loader; ctx values make some of them fail
FILES = {
    "plain": '<p>$v<b py:if="f">${w}</b></p>',
    "defs": '<p><py:def function="d(a=[], b=\'\')">${a.append(b) or len(a)}:${b}</py:def>${d()}${d(b=v)}${d()}<py:block name="k">K${v}${boom(1)}</py:block></p>',
    "assign": '<p><?python n = v * 2\nlst = [] ?>${n}${lst.append(n)}${len(lst)}<i py:for="i in w">${lst.append(i)}</i>${lst}</p>',
    "with": '<p><py:with vars="v=v+\'!\'; q=[w]">${v}${q}</py:with>${v}<py:for each="v in w">${v}</py:for></p>',
    "parent": '<h><py:block name="k">P${v}</py:block><py:def function="d(x=None)">D${x or v}</py:def>${d()}${boom(2)}</h>',
    "child": '<py:extends href="parent"><py:def function="d(x=None)">C${v}</py:def><py:block name="k">c$v${boom(3)}</py:block></py:extends>',
    "imp": '<p><py:import href="defs" alias="m"/>${m.d(b=v)}${m.k()}${boom(4)}${m.d(b=w)}</p>',
    "attrs": '<p class="$v" title="${f}" py:attrs="at"><a py:strip="f" href="x${w}">${boom(5)}</a></p>',
    "deep": '<p><py:def function="o(z)"><py:def function="i()">${z}${v}${boom(6)}</py:def>${i()}${i()}</py:def>${o(1)}${o(v)}</p>',
    "closure": '<p><?python global_one = v ?><py:def function="g(x)">${x}</py:def><b py:for="x in w" py:content="g(x)"/>${[x for x in w]}</p>',
}
FUNCS = {"plain": ("__main__",), "defs": ("__main__", "d", "k"), "assign": ("__main__",), "with": ("__main__",), "parent": ("__main__", "k", "d"),
         "child": ("__main__", "k", "d"), "imp": ("__main__",), "attrs": ("__main__",), "deep": ("__main__",), "closure": ("__main__",)}


class Boom(Exception):
    pass


def boom_at(n):
    def boom(i):
        if i == n:
            raise Boom(i)
        return ""
    return boom


def contexts():
    """fresh context mappings; equal on every call"""
    return [
        dict(v="<1>", w=["a", "b"], f=True, at={"x": "1", "y": None}, boom=boom_at(0)),
        dict(v="2", w=[], f=False, at=[("k", True)], boom=boom_at(0)),
        dict(v="3", w=["&"], f=0, at=None, boom=lambda i: boom_at(i)(i)),      # every boom fails
        dict(w=["z"], f="", at={}, boom=boom_at(0)),                           # v is missing
    ]


def freeze(v):
    if isinstance(v, dict):
        return tuple((k, freeze(x)) for k, x in v.items())
    if isinstance(v, list):
        return ["list"] + [freeze(x) for x in v]
    return id(v) if callable(v) else v


def outcome(t, ctx, fn, how="render"):
    core.step()
    try:
        if how == "render":
            return "ok", t.render(ctx, fn)
        return "ok", t.render_to_buffer(ctx, fn)
    except Exception as e:
        return "err", type(e).__name__


KINDS = {"dict": dict, "ordered": collections.OrderedDict, "user": collections.UserDict, "chain": lambda c: collections.ChainMap({}, c),
         "proxy": types.MappingProxyType, "default": lambda c: collections.defaultdict(list, c)}

_first = {}


def first(name, i, fn):
    """the outcome in a new loader"""
    key = name, i, fn
    if key not in _first:
        ld = py.loader(FILES)
        _first[key] = outcome(ld.load(name), contexts()[i], fn)
    return _first[key]


ALL = [(n, i, f) for n in sorted(FILES) for i in range(4) for f in FUNCS[n]]


def gen(n, ops):
    def g(choose):
        return tuple(choose(ops) for _ in range(n))
    return g


def run(case):
    for name, i, fn in case:
        first(name, i, fn)
    ld = py.loader(FILES)
    held, loaded = [], {}
    for k, (name, i, fn) in enumerate(case):
        ctx = contexts()[i]
        before = freeze(ctx)
        t = loaded.setdefault(name, ld.load(name))
        if k % 2:
            status, got = outcome(t, ctx, fn, "buffer")
            if status == "ok":
                held.append((got, str(got), (name, i, fn)))
                got = str(got)
            got = status, got
        else:
            got = outcome(t, ctx, fn)
        core.outcome(got)
        if got != _first[name, i, fn]:
            return "render %s of %s with context %d after %r\n  gives    %r\n  first    %r" % (fn, name, i, case[:k], got, _first[name, i, fn])
        if freeze(ctx) != before:
            return "render %s of %s changed its context %d: %r" % (fn, name, i, ctx)
        for buf, s, what in held:
            if str(buf) != s or buf.join() != s:
                return "the fragment of %r changed to %r, was %r" % (what, str(buf), s)


# --- many renders of the same template, with other renders between
def gen_often(counts):
    def g(choose):
        return choose(ALL), choose((None, 0, 1, 2)), choose(counts)
    return g


def run_often(case):
    (name, i, fn), other, n = case
    first(name, i, fn)
    ld = py.loader(FILES)
    t = ld.load(name)
    for k in range(n):
        if other is not None:
            outcome(t, contexts()[other], fn)
        got = outcome(t, contexts()[i], fn, "buffer" if k % 3 == 0 else "render")
        got = got[0], str(got[1])
        if got != _first[name, i, fn]:
            return "render %d of %s of %s with context %d, between renders with context %r\n  gives    %r\n  first    %r" % (k + 1, fn, name, i, other, got, _first[name, i, fn])
    core.outcome((name, i, fn, got))


# the same context object for several renders
def gen_shared(choose):
    i = choose(4)
    kind = choose(sorted(KINDS))
    return i, kind, tuple(choose(ALLFUNCS) for _ in range(2))


ALLFUNCS = [(n, f) for n in sorted(FILES) for f in FUNCS[n]]


def run_shared(case):
    i, kind, seq = case
    for name, fn in seq:
        first(name, i, fn)
    ld = py.loader(FILES)
    base = contexts()[i]
    ctx = KINDS[kind](base)
    before = freeze(dict(ctx))
    for name, fn in seq:
        got = outcome(ld.load(name), ctx, fn)
        # the boom function of the third context is a new one on every call, compare the rest
        if got != _first[name, i, fn]:
            return "render %s of %s with context %d (%s), sequence %r\n  gives    %r\n  first    %r" % (fn, name, i, kind, seq, got, _first[name, i, fn])
        if freeze(dict(ctx)) != before or list(ctx) != [k for k, v in before]:
            return "render %s of %s changed its context %d: %r" % (fn, name, i, ctx)


# a template may be rendered from within the rendering of itself or another
def gen_nested(choose):
    return choose(ALLFUNCS), choose(ALL), choose((0, 1, 2))


def run_nested(case):
    (name, fn), inner, k = case
    ld = py.loader(FILES)
    calls = [0]
    results = []

    def boom(i):
        calls[0] += 1
        if calls[0] == k + 1:
            results.append(outcome(ld.load(inner[0]), contexts()[inner[1]], inner[2]))
        return ""

    ctx = contexts()[0]
    want = first(name, 0, fn)
    ifirst = first(*inner)
    ld = py.loader(FILES)
    ctx["boom"] = boom
    got = outcome(ld.load(name), ctx, fn)
    if got != want or any(r != ifirst for r in results):
        return "rendering %r within %s of %s: %r, expected %r; inner %r, expected %r" % (inner, fn, name, got, want, results, ifirst)


# contexts of many sizes: the internal order of magnitude of builtins must not matter
SIZES = [0, 1, 20, 100, 150, 155, 156, 157, 158, 159, 160, 161, 165, 170, 200, 400, 1000, 5000, 20000]


def gen_large(choose):
    return choose(SIZES), choose(sorted(KINDS)), choose(ALLFUNCS), choose(ALLFUNCS)


def run_large(case):
    n, kind, *seq = case
    for name, fn in seq:
        first(name, 0, fn)
    ld = py.loader(FILES)
    base = {"x%d" % i: i for i in range(n)}
    base.update(contexts()[0])
    ctx = KINDS[kind](base)
    before = freeze(dict(ctx))
    for name, fn in seq:
        got = outcome(ld.load(name), ctx, fn)
        core.outcome(got)
        if got != _first[name, 0, fn]:
            return "render %s of %s with %d additional values (%s), sequence %r\n  gives    %r\n  first    %r" % (fn, name, n, kind, seq, got, _first[name, 0, fn])
        if freeze(dict(ctx)) != before:
            return "render %s of %s with %d additional values changed the context (%s): %r" % (fn, name, n, kind, sorted(set(dict(ctx)) ^ {k for k, v in before})[:5])


# values that are equal or identical, but do not render the same
class Obj(object):
    def __init__(self, a):
        self.a = a

    def __eq__(self, other):
        return isinstance(other, Obj)

    def __hash__(self):
        return 1

    def __str__(self):
        return "<%s>" % self.a


SAME = '<p a="$v" b="x$v"><py:def function="d(x=v)">[$x $v]</py:def><i py:if="v" py:attrs="{\'k\': v}">${d()}</i><b py:block="k">$v</b>$v${type(v).__name__}</p>'
VALS = [1, True, 1.0, 0, False, 0.0, "1", ("list",), ("obj", "q"), ("obj", "r")]
OPS = [("render", i, f) for i in range(len(VALS)) for f in ("__main__", "k")] + [("same",), ("append",)]


def gen_same(n):
    return lambda choose: (choose(("one", "new")), tuple(choose(OPS) for _ in range(n)))


_fresh = {}


def fresh_same(v, fn):
    """the rendering by a new template with a new context"""
    key = type(v).__name__, str(v), fn
    if key not in _fresh:
        _fresh[key] = py.loader({"m": SAME}).load("m").render({"v": copy.deepcopy(v)}, fn)
    return _fresh[key]


def run_same(case):
    mode, ops = case
    t = py.loader({"m": SAME}).load("m")
    shared_list = ["&"]
    ctx = {"v": None}
    last = (1, "__main__")
    for k, op in enumerate(ops):
        if op[0] == "append":
            shared_list.append(len(shared_list))
            continue
        if op[0] == "render":
            v = VALS[op[1]]
            if isinstance(v, tuple):
                v = shared_list if v[0] == "list" else Obj(v[1])
            last = v, op[2]
        v, fn = last
        if mode == "one":
            ctx["v"] = v
        else:
            ctx = {"v": v}
        core.step()
        got = t.render(ctx, fn)
        core.outcome(got)
        want = fresh_same(v, fn)
        if got != want:
            return "%s\n%s context object, operations %r\n  gives    %r\n  alone    %r" % (SAME, mode, ops[:k + 1], got, want)
        if list(ctx) != ["v"] or ctx["v"] is not v:
            return "%s\n%r changed the context: %r" % (SAME, ops[:k + 1], ctx)


# ------------------------------------------- the values in the context
ITEMS = [("class", None), ("k", False), ("k", True), ("style", "s"), ("id", 0), ("a", ["x"])]
MAKE = {
    "dict": dict, "ordered": collections.OrderedDict, "user": collections.UserDict, "default": lambda p: collections.defaultdict(list, p),
    "chain": lambda p: collections.ChainMap({}, dict(p)), "pairs": list, "lists": lambda p: [list(x) for x in p], "tuple": tuple,
    "deque": collections.deque, "userlist": collections.UserList, "counter": lambda p: collections.Counter({k: 1 for k, v in p}), "keys": lambda p: [k for k, v in p],
    "set": lambda p: {k for k, v in p}, "bytes": lambda p: bytearray(b"<"), "nested": lambda p: {"k": [dict(p), [k for k, v in p]], "class": None},
}
USES = ["<b>$v</b>", '<b k="$v"/>', '<b k="a${v}b"/>', '<b py:attrs="v"/>', '<b class="x" id="y" py:attrs="v"/>', '<b py:attrs="v" k="$v"/>', '<b py:for="x in v">$x</b>', '<b py:for="x, y in v">$x$y</b>',
        '<b py:if="v">x</b>', '<b py:unless="v">x</b>', '<b py:strip="v">x</b>', '<b py:content="v"/>', '<b py:replace="v"/>', '<b py:with="w=v">$w</b>', '<b py:with="w, *y=v">$w$y</b>',
        '<py:def function="f(a, *b, **c)">$a$b$c</py:def>${f(v)}', '<py:def function="f(*b, **c)"><i py:attrs="c"/>$b</py:def>${f(*v)}', '<py:def function="f(**c)"><i py:attrs="c"/></py:def>${f(**v)}',
        '<py:def function="f(a=v)"><i py:attrs="a"/></py:def>${f()}${f()}', '${literal(v)}', '<?python w = v ?>$w', '<py:import href="lib" alias="i"/>${i.f(v)}', "${[x for x in v]}", "${{**v}}", "${list(v)[:1]}"]


def gen_values(choose):
    return choose(range(len(USES))), choose(sorted(MAKE)), tuple(choose(ITEMS) for _ in range(choose((0, 1, 2))))


def shape_of(v):
    """what is compared: types, order, values and the identity of what cannot be compared"""
    if isinstance(v, (dict, collections.UserDict, collections.ChainMap)):
        return type(v).__name__, getattr(v, "default_factory", None), [(k, shape_of(v[k])) for k in v], [shape_of(m) for m in getattr(v, "maps", ())]
    if isinstance(v, (list, tuple, collections.deque, collections.UserList)):
        return type(v).__name__, [shape_of(x) for x in v]
    return type(v).__name__, copy.copy(v)


def run_values(case):
    u, m, items = case
    ld = py.loader({"t": "<p>%s</p>" % USES[u], "lib": '<l><py:def function="f(a)"><i py:attrs="a"/>$a</py:def></l>'})
    t = ld.load("t")
    ctx = {"v": MAKE[m](items)}
    before, obj = shape_of(ctx["v"]), ctx["v"]
    outs = []
    for rnd in range(3):
        outs.append(outcome(t, ctx, "__main__"))
        if list(ctx) != ["v"] or ctx["v"] is not obj or shape_of(obj) != before:
            return "%s of %r with %r: changed to %r by render %d (%r)" % (USES[u], m, items, obj, rnd, outs[-1])
    outs.append(outcome(t, {"v": MAKE[m](items)}, "__main__"))
    core.outcome((u, outs[0][0], outs[0][1] if outs[0][0] == "err" else None))
    if len(set(outs)) > 1 and m != "set":
        return "%s of %r with %r gives %r" % (USES[u], m, items, outs)


def suites(tier):
    deep = tier == "thorough"
    few = [op for op in ALL if op[0] in ("defs", "child", "imp", "with", "assign") and op[1] in (0, 2)]
    return [
        core.Suite("values", gen_values, run_values, "containers as values in every use, which must not change"),
        core.Suite("pairs", gen(2, ALL), run, "all pairs of renders of the templates, with succeeding and failing contexts"),
        core.Suite("triples", gen(3, ALL if deep else few), run, "sequences of three renders"),
        core.Suite("often", gen_often((5000 if deep else 1030,)), run_often, "%d renders of the same" % (5000 if deep else 1030)),
        core.Suite("shared_context", gen_shared, run_shared, "one context object (of several mapping types) for two renders"),
        core.Suite("nested", gen_nested, run_nested, "rendering while another render is in progress"),
            core.Suite("context_sizes", gen_large if deep else lambda choose: (choose(SIZES), choose(("dict", "default", "chain")), choose(ALLFUNCS), choose(ALLFUNCS[:6])), run_large, "contexts with up to 20000 values, of several mapping types"),
        core.Suite("equal_values", gen_same(4 if deep else 3), run_same, "sequences of renders with values that are equal or the same object but render differently"),
    ]
