"""C23: the Pyramid integration follows its configuration."""
import os
import sys

from mc import clock, core, py


def prepare():
    clock.install()
    import tonnikala.pyramid                    # noqa: F401
    import tonnikala.runtime.debug              # noqa: F401


_base = None


def base():
    """a directory of this worker with two packages and plain directories"""
    global _base
    if _base is None or _base[0] != os.getpid():
        d = os.path.join(core.scratch, "pyr%d" % os.getpid())
        for p in ("mcpkg_one", "mcpkg_two"):
            os.makedirs(os.path.join(d, p, "t"))
            os.makedirs(os.path.join(d, p, "u"))
            open(os.path.join(d, p, "__init__.py"), "w").close()
        for p in ("d1", "d2", "other"):
            os.makedirs(os.path.join(d, p))
        sys.path.insert(0, d)
        _base = (os.getpid(), d)
    d = _base[1]
    for p in PLACES.values():
        for root, dirs, files in os.walk(os.path.join(d, p)):
            for f in files:
                os.unlink(os.path.join(root, f))
    return d


PLACES = {"d1": "d1", "d2": "d2", "one:t": "mcpkg_one/t", "one:u:v": "mcpkg_one/u:v", "two:t": "mcpkg_two/t", "other": "other"}


def spec(d, place):
    if ":" in place:
        p, s = place.split(":", 1)
        return "mcpkg_%s:%s" % (p, s)
    return os.path.join(d, place)


def write(d, place, name, content):
    path = os.path.join(d, PLACES[place], name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(content)
    return path


def configure(settings, directives=(), includes=1, autocommit=False, late=False):
    """late: directives after the settings; directives: (name, args)"""
    from pyramid.config import Configurator
    core.step()
    c = Configurator(settings=settings, autocommit=autocommit)
    for _ in range(includes):
        c.include("tonnikala.pyramid")
    for name, args in directives:
        getattr(c, name)(*args)
    for _ in range(includes - 1):
        c.include("tonnikala.pyramid")
    if not autocommit:
        c.commit()
    return c


def render(c, name, value=None, how="render", **attrs):
    from pyramid import renderers
    from pyramid.testing import DummyRequest
    core.step()
    r = DummyRequest()
    r.registry = c.registry
    for k, v in attrs.items():
        setattr(r, k, v)
    c.begin(r)
    try:
        value = {} if value is None else value
        if how == "response":
            resp = renderers.render_to_response(name, value, r)
            return "ok", (resp.text, resp.content_type, resp.charset)
        return "ok", renderers.render(name, value, r)
    except NameError:
        return "err", "NameError"
    except OSError:
        return "err", "OSError"
    except Exception as e:
        return "err", type(e).__name__
    finally:
        c.end()


def report(what, got, want):
    return "%s\n  gives    %r\n  expected %r" % (what, got, want)


# ------------------------------------------------------------- extensions
def words(s):
    return s.split() if isinstance(s, str) else [w for x in s for w in x.split()]


EXT_SETTINGS = [None, "", "tk", ".tk", "tk pt", ".tk\n  .pt\n", ["tk", ".pt"], (".tk",), []]
EXT_CALLS = [(), ("pt",), (".pt", "xx"), ("xx",)]


def gen_ext(choose):
    calls = tuple(choose(EXT_CALLS) for _ in range(choose((0, 1, 2))))
    flat = [e.lstrip(".") for c in calls for e in c]
    if len(flat) != len(set(flat)):
        raise core.Skip()            # a conflict
    return choose(EXT_SETTINGS), calls, choose((1, 2, 3)), choose((False, True)), choose(("asset", "search"))


def run_ext(case):
    setting, calls, includes, autocommit, how = case
    d = base()
    settings = {} if setting is None else {"tonnikala.extensions": setting}
    directives = [("add_tonnikala_extensions", c) for c in calls]
    if how == "search":
        directives.append(("add_tonnikala_search_paths", (os.path.join(d, "d1"),)))
    c = configure(settings, directives, includes, autocommit)
    on = set(w.lstrip(".") for w in words(setting or "")) | set(e.lstrip(".") for x in calls for e in x)
    for e in ("tk", "pt", "xx", "yy"):
        place = "d1" if how == "search" else "one:t"
        write(d, place, "a." + e, "<p>&lt;${v}</p>")
        got = render(c, "a." + e if how == "search" else "mcpkg_one:t/a." + e, {"v": "<" + e})
        core.outcome(got)
        want = ("ok", "<p>&lt;&lt;%s</p>" % e) if e in on else ("err", "ValueError")
        if got != want:
            return report("extension %s with %r" % (e, case), got, want)


# ------------------------------------------------------------ search paths
POOL = ["d1", "d2", "one:t", "one:u:v", "two:t"]


def gen_paths(n, names, light=False):
    def gen(choose):
        seq = []
        left = list(POOL)
        for _ in range(choose(n)):
            p = choose(left)
            left.remove(p)
            seq.append(p)
        cut = choose(len(seq) + 1)
        split = choose(("one", "each")) if len(seq) - cut > 1 else "one"
        form = choose(("text", "lines", "list")) if cut and not light else "text"
        if light and cut not in (0, len(seq)):
            raise core.Skip()
        have = tuple(p for p in seq if choose((0, 1)))
        outside = tuple(p for p in POOL if p not in seq)[:1]
        return tuple(seq), cut, split, form, have, outside if outside and choose((0, 1)) else (), choose(names)
    return gen


def run_paths(case):
    seq, cut, split, form, have, outside, name = case
    d = base()
    for p in have + outside:
        write(d, p, name, "<p>%s ${x}</p>" % p)
    specs = [spec(d, p) for p in seq]
    settings = {"tonnikala.extensions": "tk"}
    if cut:
        settings["tonnikala.search_paths"] = {"text": " ".join, "lines": lambda x: "\n  " + "\n  ".join(x), "list": list}[form](specs[:cut])
    rest = specs[cut:]
    directives = [("add_tonnikala_search_paths", tuple(rest))] if split == "one" else [("add_tonnikala_search_paths", (r,)) for r in rest]
    c = configure(settings, directives)

    def expect(candidates):
        return ("ok", "<p>%s 1</p>" % candidates[0]) if candidates else ("err", "OSError")
    for _ in range(2):
        got = render(c, name, {"x": 1})
        core.outcome(got)
        want = expect(list(have))
        if got != want:
            return report("%s with %r" % (name, case), got, want)
    # asset specs and absolute names do not depend on the search paths
    for p in POOL:
        exists = p in have + outside
        names = [os.path.join(d, PLACES[p], name)]
        if ":" in p:
            names.append(spec(d, p) + "/" + name)
        for n in names:
            got = render(c, n, {"x": 1})
            core.outcome(got)
            want = expect([p] if exists else [])
            if got != want:
                return report("%s with %r" % (n, case), got, want)
    got = render(c, "mcpkg_missing:t/" + name)
    if got != ("err", "OSError"):
        return report("mcpkg_missing:t/%s" % name, got, ("err", "OSError"))


def gen_fallback(choose):
    """the loader's own paths come after the search paths"""
    kinds = tuple(choose(("search", "own", "-")) for _ in range(3))
    order = choose((0, 1))
    have = tuple(choose((0, 1)) for _ in range(3))
    return kinds, order, have, choose(("a.tk", "sub/b.tk"))


def run_fallback(case):
    kinds, order, have, name = case
    d = base()
    places = ("d1", "one:t", "d2")
    from tonnikala.pyramid import PyramidTonnikalaLoader
    core.step()
    loader = PyramidTonnikalaLoader()
    todo = [(k, p) for k, p in zip(kinds, places) if k != "-"]
    for k, p in reversed(todo) if order else todo:
        if k == "own":
            loader.add_path(os.path.join(d, PLACES[p]))
        elif ":" in p:
            loader.add_search_path("mcpkg_" + p.split(":")[0], p.split(":")[1])
        else:
            loader.add_search_path(None, os.path.join(d, p))
    for p, h in zip(places, have):
        if h:
            write(d, p, name, "<p>%s</p>" % p)
    listed = list(reversed(todo)) if order else todo
    rank = [p for k, p in listed if k == "search"] + [p for k, p in listed if k == "own"]
    found = [p for p in rank if have[places.index(p)]]
    want = ("ok", "<p>%s</p>" % found[0]) if found else ("err", "OSError")
    for _ in range(2):
        try:
            got = "ok", str(loader.load(name).render({}))
        except OSError:
            got = "err", "OSError"
        core.outcome(got)
        if got != want:
            return report("%s with %r" % (name, case), got, want)


def gen_refs(choose):
    """templates that extend or import others through search paths and asset specs"""
    return tuple(choose(("d1", "d2", "one:t")) for _ in range(2)), choose((("d1", "d2"), ("d2", "d1"), ("d1", "one:t"), ("one:t", "d2", "d1"), ("d1",), ())), \
        choose(("plain", "asset", "absolute")), choose(("extends", "import")), choose(("plain", "asset"))


def run_refs(case):
    (where_child, where_base), paths, ref, kind, entry = case
    d = base()
    write(d, where_base, "base.tk", '<b><py:def function="f(x)">F$x</py:def>${f(1)}<py:block name="k">K</py:block></b>')

    def name(place, n, how):
        if how == "plain":
            return n, place in paths
        if how == "asset" and ":" in place:
            return spec(d, place) + "/" + n, True
        return os.path.join(d, PLACES[place], n), True
    href, ok1 = name(where_base, "base.tk", ref)
    write(d, where_child, "child.tk", '<py:extends href="%s"><py:block name="k">C$v</py:block></py:extends>' % href if kind == "extends" else
          '<c><py:import href="%s" alias="m"/>${m.f(v)}</c>' % href)
    tmpl, ok2 = name(where_child, "child.tk", entry)
    c = configure({"tonnikala.extensions": "tk"}, [("add_tonnikala_search_paths", tuple(spec(d, p) for p in paths))])
    got = render(c, tmpl, {"v": 7})
    core.outcome(got)
    want = ("ok", "<b>F1C7</b>" if kind == "extends" else "<c>F7</c>") if ok1 and ok2 else ("err", "OSError")
    if got != want:
        return report("%r" % (case,), got, want)


# ---------------------------------------------------------------- reloading
FLAGS = [None, True, False, "true", "false", "1", "0", "yes", "no", "on", "off", "", " True "]
SMALL = [None, True, False, "true", "false"]


def truthy(v):
    return v is True or (isinstance(v, str) and v.strip().lower() in ("true", "1", "yes", "on", "t", "y"))


OPS = ("render", "write", "tick")


def gen_reload(flags, n):
    def gen(choose):
        return choose(flags), choose(flags), choose((None, True, False)), choose((1, 2)), tuple(choose(OPS) for _ in range(n))
    return gen


def run_reload(case):
    own, pyramid, call, includes, ops = case
    d = base()
    settings = {"tonnikala.extensions": "tk"}
    if own is not None:
        settings["tonnikala.reload"] = own
    if pyramid is not None:
        settings["pyramid.reload_templates"] = pyramid
    c = configure(settings, [("set_tonnikala_reload", (call,))] if call is not None else [], includes)
    flag = call if call is not None else truthy(own) if own is not None else truthy(pyramid)
    version, t = 0, 1700000000.0

    def put():
        nonlocal version, t
        version += 1
        t += 10
        os.utime(write(d, "one:t", "a.tk", "<p>%d</p>" % version), (t, t))
    put()
    clock.advance(10)
    served = None               # what the cache may hold
    fresh = False               # within the interval of a check
    for op in ("render",) + ops + ("tick", "render"):
        if op == "write":
            put()
        elif op == "tick":
            clock.advance(10)
            fresh = False
        else:
            got = render(c, "mcpkg_one:t/a.tk")
            core.outcome(got)
            if served is None or (flag and not fresh):
                served = version
                fresh = True
            if got != ("ok", "<p>%d</p>" % served):
                return report("%r" % (case,), got, ("ok", "<p>%d</p>" % served))


# -------------------------------------------------------------- translation
MESSAGE = '<p title="tip">hello <b>you</b></p>'


def gen_l10n(choose):
    return choose(FLAGS), choose((None, True, False)), choose((1, 2)), choose((True, False)), choose(("first", "last"))


def run_l10n(case):
    own, call, includes, autocommit, order = case
    d = base()
    write(d, "d1", "a.tk", MESSAGE)
    settings = {"tonnikala.extensions": "tk", "tonnikala.search_paths": os.path.join(d, "d1")}
    if own is not None:
        settings["tonnikala.l10n"] = own
    other = [("set_tonnikala_reload", (True,))]
    mine = [("set_tonnikala_l10n", (call,))] if call is not None else []
    c = configure(settings, mine + other if order == "first" else other + mine, includes, autocommit)
    flag = call if call is not None else truthy(own)
    got = render(c, "a.tk", {"gettext": lambda s: s.upper()})
    core.outcome(got)
    want = ("ok", '<p title="TIP">HELLO <b>YOU</b></p>' if flag else '<p title="tip">hello <b>you</b></p>')
    if got != want:
        return report("%r" % (case,), got, want)


# ---------------------------------------------------------------- renderer
class Mapping(object):
    def keys(self):
        return ["v"]

    def __getitem__(self, k):
        return {"v": "<m>"}[k]


def values():
    import collections
    import types
    return {"dict": {"v": "<m>"}, "ordered": collections.OrderedDict(v="<m>"), "user": collections.UserDict(v="<m>"), "keys": Mapping(),
            "proxy": types.MappingProxyType({"v": "<m>"}), "default": collections.defaultdict(int, v="<m>"), "chain": collections.ChainMap({}, {"v": "<m>"}),
            "none": None, "int": 5, "text": "ab", "list": ["abc"], "object": object(), "ints": [1, 2], "bool": True, "bytes": b"ab"}


GOOD = ("dict", "ordered", "user", "keys", "proxy", "default", "chain")
SYSTEM = {"view": "None", "renderer_name": "mcpkg_one:t/a.tk", "context": "ctx", "request": None, "req": None}


def gen_value(choose):
    return choose(sorted(values())), choose(("render", "response", "view", "fragment")), choose((None,) + tuple(sorted(SYSTEM))), choose((None, "view", "context", "request", "v"))


def run_value(case):
    """what is available to the template; the view overrides the values of the system"""
    kind, how, show, override = case
    d = base()
    value = values()[kind]
    if override:
        try:
            value[override] = "over&"
        except Exception:
            override = None            # not a mutable mapping
    expr = "v" if show is None else show + ".marker" if show in ("request", "req") and override != show else show
    write(d, "one:t", "a.tk", "<p>${%s}&lt;${v}</p>" % expr)
    name = "mcpkg_one:t/a.tk"
    shown = {None: "<m>", "view": "None", "renderer_name": name, "context": "ctx", "request": "mark", "req": "mark"}[show]
    v = "<m>"
    if override == "v":
        v = "over&"
        shown = v if show is None else shown
    elif override is not None and override == show:
        shown = "over&"
    esc = lambda s: s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    text = "<p>%s&lt;%s</p>" % (esc(shown), esc(v))
    c = configure({"tonnikala.extensions": "tk"})
    if how in ("render", "response"):
        got = render2(c, name, value, how)
        want = ("ok", text if how == "render" else (text, "text/html", "UTF-8"))
    else:
        got = direct(c, name, value, how)
        want = ("ok", (text, text) if how == "fragment" else (text, True))
    if kind not in GOOD:
        want = ("err", "ValueError")
    core.outcome(got)
    if got != want:
        return report("%r" % (case,), got, want)


def render2(c, name, value, how):
    from pyramid import renderers
    from pyramid.testing import DummyRequest
    core.step()
    r = DummyRequest()
    r.registry, r.marker, r.context = c.registry, "mark", "ctx"
    c.begin(r)
    try:
        if how == "response":
            resp = renderers.render_to_response(name, value, r)
            return "ok", (resp.text, resp.content_type, resp.charset)
        return "ok", renderers.render(name, value, r)
    except Exception as e:
        return "err", type(e).__name__
    finally:
        c.end()


def direct(c, name, value, how):
    """the renderer itself"""
    from pyramid.interfaces import IRendererFactory
    from types import SimpleNamespace
    core.step()
    try:
        renderer = c.registry.queryUtility(IRendererFactory, name=".tk")(SimpleNamespace(name=name, registry=c.registry, package=None, type=".tk", settings={}))
        req = SimpleNamespace(marker="mark")
        system = dict(view=None, context="ctx", request=req, req=req, renderer_name=name)
        if how == "fragment":
            del system["renderer_name"]
            rv = renderer.fragment(name, value, system)
            from markupsafe import escape
            return "ok", (str(rv), str(escape(rv)) if hasattr(rv, "__html__") else str(rv))
        rv = renderer(value, system)
        return "ok", (rv, isinstance(rv, str))
    except Exception as e:
        return "err", type(e).__name__


# ------------------------------------------------------- several applications
def gen_apps(choose):
    return tuple((choose(("tk", "pt", None)), choose(("d1", "d2")), choose((None, True)), choose((None, True))) for _ in range(2)), choose((0, 1))


def run_apps(case):
    """the configuration of one application does not change another"""
    apps, first = case
    d = base()
    for p in ("d1", "d2"):
        for e in ("tk", "pt"):
            write(d, p, "a." + e, '<p title="tip">%s</p>' % p)
    confs = []
    for ext, path, l10n, reload in apps:
        s = {"tonnikala.search_paths": os.path.join(d, path)}
        if ext:
            s["tonnikala.extensions"] = ext
        if l10n:
            s["tonnikala.l10n"] = "true"
        if reload:
            s["tonnikala.reload"] = "true"
        confs.append(configure(s))
    for i in (first, 1 - first, first):
        ext, path, l10n, reload = apps[i]
        for e in ("tk", "pt"):
            got = render(confs[i], "a." + e, {"gettext": lambda s: s.upper()})
            core.outcome(got)
            text = '<p title="tip">%s</p>' % path
            want = ("ok", ('<p title="TIP">%s</p>' % path.upper()) if l10n else text) if e == ext else ("err", "ValueError")
            if got != want:
                return report("%r %s of application %d" % (case, e, i), got, want)


# --------------------------------------------- all settings together
def gen_all(choose):
    def src(values):
        return choose(("setting", "directive")), choose(values)
    return src((True, False)), src((True, False)), src(("d1", "one:t")), src(("tk", ".tk"))


def run_all(case):
    """settings and directives are equivalent"""
    (s1, reload), (s2, l10n), (s3, path), (s4, ext) = case
    d = base()
    settings, directives = {}, []
    for src, key, directive, v, args in ((s1, "reload", "set_tonnikala_reload", str(reload).lower(), (reload,)), (s2, "l10n", "set_tonnikala_l10n", str(l10n).lower(), (l10n,)),
                                         (s3, "search_paths", "add_tonnikala_search_paths", spec(d, path), (spec(d, path),)),
                                         (s4, "extensions", "add_tonnikala_extensions", ext, (ext,))):
        if src == "setting":
            settings["tonnikala." + key] = v
        else:
            directives.append((directive, args))
    c = configure(settings, directives)
    os.utime(write(d, path, "a.tk", "<p>one</p>"), (1.7e9, 1.7e9))
    show = lambda s: "<p>%s</p>" % (s.upper() if l10n else s)
    clock.advance(10)
    rv = [render(c, "a.tk", {"gettext": lambda s: s.upper()})]
    os.utime(write(d, path, "a.tk", "<p>two</p>"), (1.8e9, 1.8e9))
    clock.advance(10)
    rv.append(render(c, "a.tk", {"gettext": lambda s: s.upper()}))
    want = [("ok", show("one")), ("ok", show("two" if reload else "one"))]
    core.outcome(tuple(rv))
    if rv != want:
        return report("%r" % (case,), rv, want)


def suites(tier):
    deep = tier == "thorough"
    S = core.Suite
    return [
        S("extensions", gen_ext, run_ext, "forms of the setting x directive calls x repeated includes x autocommit"),
        S("search_paths", gen_paths((0, 1, 2) if not deep else (0, 1, 2, 3), ("a.tk", "sub/b.tk")), run_paths,
          "ordered selections of up to %d of %d paths, divided between setting and directives, x the paths that contain the template" % (3 if deep else 2, len(POOL))),
        S("more_paths", gen_paths((4,) if deep else (3,), ("sub/b.tk",), True), run_paths, "ordered selections of %d paths" % (4 if deep else 3)),
        S("fallback", gen_fallback, run_fallback, "divisions of three paths between search paths and the loader's own paths x the paths that contain the template"),
        S("references", gen_refs, run_refs, "extends and import through search paths, asset specs and absolute names"),
        S("reload_flags", gen_reload(FLAGS, 1), run_reload, "values of both settings x directive x operations"),
        S("reload_histories", gen_reload(SMALL, 4 if deep else 3), run_reload, "histories of render, write and waiting"),
        S("l10n", gen_l10n, run_l10n, "values of the setting x directive"),
        S("values", gen_value, run_value, "kinds of values of views x ways to render x system values and overrides"),
        S("applications", gen_apps, run_apps, "two applications in one process"),
        S("together", gen_all, run_all, "each of the settings as a setting or as a directive"),
    ]
