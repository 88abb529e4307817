"""C25: a template means the same however it is loaded: from a string or a file, by whichever loader, with whichever options."""
import contextlib
import io
import os
import re
import traceback

from mc import core, js, py, tk, c02, c04, c18

R = "<r>%s</r>"
NL = {"lf": lambda s: s, "crlf": lambda s: s.replace("\n", "\r\n"), "wide": lambda s: s.replace("x", "\xe4\u4e00\U0001f600"), "bom": lambda s: "\ufeff" + s, "cr": lambda s: s.replace("\n", "\r")}


def prepare():
    from tonnikala import loader          # noqa: F401
    import tonnikala.runtime.debug        # noqa: F401
    import tonnikala.pyramid              # noqa: F401
    import ast                            # noqa: F401


def anonymous(s):
    """without addresses of objects"""
    return re.sub(r"(at 0x)[0-9a-f]+", r"\1", str(s))


def lines(e, name):
    return tuple(f.lineno for f in traceback.extract_tb(e.__traceback__) if f.filename.endswith(name))


class Quiet(object):
    """debugging output is not a part of what is compared, apart from being there"""
    def __init__(self, debug):
        self.debug = debug

    def __enter__(self):
        self.out = io.StringIO()
        self.cm = contextlib.redirect_stdout(self.out)
        self.cm.__enter__()
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)
        if not self.debug and self.out.getvalue():
            raise AssertionError("wrote to standard output: %r" % self.out.getvalue()[:200])


def attempt(f, name, debug=False):
    """a comparable description of what f does, and its value"""
    from tonnikala.runtime.exceptions import TemplateSyntaxError
    core.step()
    try:
        with Quiet(debug):
            v = f()
        return ("ok", str(v) if not hasattr(v, "render") else None), v
    except TemplateSyntaxError as e:
        if not (e.filename or "").endswith(name):
            return ("file name of the error", e.filename), None
        return ("syntax", e.lineno, anonymous(e.message), e.source), None
    except RecursionError:
        return ("error", "RecursionError"), None
    except Exception as e:
        return ("error", type(e).__name__, anonymous(e), lines(e, name)), None


# each way: function (files, name, syntax, text of the main template) -> (function that loads, function that renders a template with a context)
def plain(t, ctx):
    return t.render(ctx)


class Mapping(dict):
    pass


def joined(t, ctx):
    return t.render_to_buffer(Mapping(ctx)).join()


def named(t, ctx):
    before = dict(ctx)
    rv = t.render(context=ctx, funcname="__main__")
    if ctx != before:
        raise AssertionError("the context was changed: %r" % ctx)
    return rv


# loaders that cannot load other templates
NO_OTHERS = ("string", "positional", "debug", "translatable")
NO_L10N = ("translatable", "file translatable", "pyramid l10n")


def ways():
    """{name: function (directory, file name, source, syntax) -> (load, render)}"""
    from tonnikala.loader import FileLoader, Loader
    from tonnikala.pyramid import TonnikalaRendererFactory
    w = {}
    w["string"] = lambda d, n, src, syntax: (lambda: Loader(syntax=syntax).load_string(src, n), plain)
    w["positional"] = lambda d, n, src, syntax: (lambda: Loader(False, syntax, False).load_string(string=src, filename=n), joined)
    w["debug"] = lambda d, n, src, syntax: (lambda: Loader(debug=True, syntax=syntax).load_string(src, n), named)
    w["translatable"] = lambda d, n, src, syntax: (lambda: Loader(syntax=syntax, translatable=True).load_string(src, n), plain)
    w["loadstring"] = lambda d, n, src, syntax: (lambda: FileLoader([d], syntax=syntax).load_string(src, os.path.join(d, n)), plain)

    def file(**kw):
        how = kw.pop("how", "relative")

        def way(d, n, src, syntax):
            ld = FileLoader([] if how == "added" else [d], syntax=syntax, **kw)
            if how == "added":
                ld.add_path(d)
            if how == "reload":
                ld.set_reload(True)

            def load():
                if how == "absolute":
                    return ld.load(os.path.join(d, n))
                if how == "subdir":
                    return ld.load("../%s/%s" % (os.path.basename(d), n))
                t = ld.load(n)
                if how in ("twice", "reload"):
                    ld._last_reload_check = 0
                    t2 = ld.load(n)
                    if t2 is not t:
                        raise AssertionError("another template though nothing changed")
                return t
            return load, joined if how == "twice" else plain
        return way
    w["file"] = file()
    w["absolute"] = file(how="absolute")
    w["subdir"] = file(how="subdir")
    w["twice"] = file(how="twice")
    w["reload"] = file(how="reload")
    w["added"] = file(how="added")
    w["file debug"] = file(debug=True)
    w["file translatable"] = file(translatable=True)

    def positional(d, n, src, syntax):
        return lambda: FileLoader([d], False, syntax).load(n), plain
    w["file positional"] = positional

    def pyramid(l10n, fragment, split=None):
        def way(d, n, src, syntax):
            factory = TonnikalaRendererFactory()
            factory.loader.syntax = syntax
            factory.add_search_path(None, d)
            factory.set_l10n(l10n)
            renderer = factory(None)

            def show(t, ctx):
                system = {"renderer_name": n}
                if split is not None:
                    # some of the variables are given by Pyramid, others by the view, which has the last word
                    keys = sorted(ctx)
                    for k in keys[split::2]:
                        system[k] = ctx[k]
                    for k in keys[1 - split::2]:
                        system[k] = "not used"
                    ctx = {k: ctx[k] for k in keys[1 - split::2]}
                if fragment:
                    return renderer.fragment(n, ctx, system)
                return renderer(ctx, system)
            return lambda: factory.loader.load(n), show
        return way
    w["pyramid"] = pyramid(False, False)
    w["pyramid l10n"] = pyramid(True, False)
    w["pyramid fragment"] = pyramid(False, True)
    w["pyramid system"] = pyramid(False, False, 0)
    w["pyramid system fragment"] = pyramid(False, True, 1)
    return w


def compare(files, main, ctxs, syntax="tonnikala", reference="string"):
    d = py.fresh_dir()
    for n, src in files.items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(src.encode("utf-8"))
    src = files[main]
    results = {}
    for way, make in ways().items():
        if way in NO_OTHERS and reference != "string":
            continue
        # the Chameleon syntax does not support it, and says so
        if syntax == "chameleon" and way in NO_L10N:
            continue
        load, show = make(d, main, src, syntax)
        debug = "debug" in way
        r, t = attempt(load, main, debug)
        res = [r]
        if t is not None:
            for c in ctxs:
                # other files can be loaded when rendering
                res.append(attempt(lambda: show(t, dict(c)), main, debug)[0])
        results[way] = res
    want = results[reference]
    core.outcome(repr(want)[:300])
    for way, res in results.items():
        if res != want:
            return "%r\nloaded with %r: %r\nloaded with %r: %r" % (files, way, res, reference, want)


# --- sequences of fragments, valid and not
def gen_fragments(n, syntaxes, nls):
    idx = range(len(c18.FRAGMENTS))
    surrogate = [i for i in idx if any(0xd800 <= ord(c) < 0xe000 for c in c18.FRAGMENTS[i][0])]
    assert not surrogate

    def g(choose):
        return choose(syntaxes), choose(nls), tuple(choose(idx) for _ in range(n))
    return g


FRAGMENT_CTX = [dict(a="<a>", b=["p", 2], c=1), dict(a=1), {}]


def run_fragments(case):
    syntax, nl, idx = case
    src = R % "".join(c18.FRAGMENTS[i][0] for i in idx)
    if syntax == "chameleon":
        src = src.replace("py:", "tal:")
    src = NL[nl](src)
    # translation works on whole messages; C12 is about that
    return compare({"x.tk": src}, "x.tk", FRAGMENT_CTX, syntax, reference="file" if "href" in src else "string")


# --- nested constructs
def gen_nest(n, names, syntaxes):
    def g(choose):
        return choose(syntaxes), tuple(choose(names) for _ in range(n)), choose(sorted(c04.LEAVES))
    return g


def run_nest(case):
    syntax, path, leaf = case

    def inner(i):
        if i == len(path):
            return c04.LEAVES[leaf]
        return lambda v: [("t", "(")] + c04.FORMS[path[i]](inner(i + 1), v, i) + [("x", v), ("t", ")")]
    nodes = (c04.el("html", (), (), inner(0)("c")),)
    return compare({"x.tk": tk.source(nodes, "py" if syntax == "tonnikala" else "tal")}, "x.tk", [dict(c) for c in c04.CTXS[:2]] + [dict(w=1, L=[1])], syntax)


# --- static markup, and values next to it
def gen_pieces(n):
    def g(choose):
        return tuple(choose(range(len(c02.PIECES))) for _ in range(n))
    return g


def run_pieces(case):
    src = R % "".join(c02.PIECES[i][0] for i in case)
    return compare({"x.tk": src}, "x.tk", [dict(x="<x>", u="&", n=3, f="f", v=1), {}])


# --- several files
MAINS = ['<r><py:import href="o.tk" alias="o"/>%s${o.f(1)}</r>', '<r><py:import href="o.tk" alias="o"/>\n%s\n${o.nothing}</r>', '<py:extends href="o.tk"><py:block name="b">[%s]</py:block></py:extends>',
         '<py:extends href="o.tk"><py:block name="b">[${super()}%s]</py:block></py:extends>', '<py:extends href="o.tk"><py:def function="f(x)">{%s${x}}</py:def></py:extends>',
         '<r><py:import href="nowhere.tk" alias="o"/>%s</r>', '<py:extends href="nowhere.tk">%s</py:extends>', '<r><py:from href="o.tk" import="f"/>%s${f(2)}</r>',
         '<r><py:for each="i in [1,2]"><py:import href="o.tk" alias="o"/>%s${o.f(i)}</py:for></r>', '<r><py:def function="g"><py:import href="o.tk" alias="o"/>${o.f(%r)}</py:def>%s${g()}</r>']
OTHERS = ['<r><py:def function="f(x)">&lt;$x${a}</py:def><py:block name="b">&lt;B&gt;</py:block>|${f("z")}</r>', '<r><py:def function="f(x)">\n${nothing}</py:def>\n<py:block name="b">\n${nothing}</py:block></r>',
          '<r><py:block name="b"><py:def function="f(x)">$x</py:def>${f(a)}</py:block></r>', '<r><py:bad/></r>', '<r>\n</b></r>', '<py:extends href="p.tk"><py:def function="f(x)">$x</py:def></py:extends>', "", "\n<!-- c -->\n<p>${a}</p>"]
INSIDE = ["", "$a", "\n${a}\n", "${nothing}", "&amp;\r\n\xe4", "<i py:if='a'>x</i>", "${f(3)}", "${"]


def gen_several(choose):
    return choose(range(len(MAINS))), choose(range(len(OTHERS))), choose(range(len(INSIDE))), choose(sorted(NL))


def run_several(case):
    m, o, i, nl = case
    main = MAINS[m].replace("%s", INSIDE[i]).replace("%r", "4")
    files = {"x.tk": NL[nl](main), "o.tk": NL[nl](OTHERS[o]), "p.tk": '<r>P<py:block name="b">pb</py:block></r>'}
    # the name given to the loader is in the messages, the absolute ones too
    return compare(files, "x.tk", [dict(a="<a>"), dict(a=0, f=lambda x: x, g=3), {}], reference="file")


# --- JavaScript: debugging output and the way the loader is called
def gen_js(n):
    idx = range(len(c18.FRAGMENTS))

    def g(choose):
        return choose(sorted(NL)), tuple(choose(idx) for _ in range(n))
    return g


def run_js(case):
    from tonnikala.loader import JSLoader
    nl, idx = case
    src = NL[nl]((R % "".join(c18.FRAGMENTS[i][0] for i in idx)).replace("py:", "js:").replace("<?py", "<?js"))
    results = {}
    for how in ("plain", "debug", "positional", "again"):
        shared = JSLoader()
        load = {"plain": lambda: JSLoader().load_string(src, "x.tk"), "debug": lambda: JSLoader(debug=True).load_string(src, "x.tk"),
                "positional": lambda: JSLoader(False, "js_tonnikala", False).load_string(string=src, filename="x.tk"),
                "again": lambda: [shared.load_string("<p>$q</p>", "y.tk"), shared.load_string(src, "x.tk")][1]}[how]
        # slimit writes about illegal characters
        r, v = attempt(load, "x.tk", True)
        # numbers of internal names
        results[how] = re.sub(r"(__TK[A-Za-z_]*?_+)\d+", r"\1N", repr(r))
    core.outcome(results["plain"][:200])
    for how, r in results.items():
        if r != results["plain"]:
            return "%r\nloaded with %r: %s\nloaded with 'plain': %s" % (src, how, r, results["plain"])


def suites(tier):
    deep = tier == "thorough"
    return [
        core.Suite("fragments1", gen_fragments(1, ("tonnikala", "chameleon"), sorted(NL)), run_fragments, "each fragment, valid or not, in every way of loading"),
        core.Suite("fragments2", gen_fragments(2, ("tonnikala", "chameleon") if deep else ("tonnikala",), sorted(NL) if deep else ("lf",)), run_fragments, "all pairs of fragments, valid and not"),
        core.Suite("nest", gen_nest(2, sorted(c04.FORMS), ("tonnikala", "chameleon") if deep else ("tonnikala",)), run_nest, "constructs nested to depth 2"),
        core.Suite("pieces", gen_pieces(2), run_pieces, "all pairs of pieces of markup"),
        core.Suite("several", gen_several, run_several, "templates that refer to other files"),
        core.Suite("js", gen_js(2 if deep else 1), run_js, "JavaScript targets"),
    ]
