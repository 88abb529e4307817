"""C08: imports expose exactly the definitions of the imported template."""
from mc import core, py, sizes, tk
from mc.c01 import el

FORMS = (None, "def", "block")


def define(t, name, form, calls=()):
    """a definition of the name in the template t"""
    if form is None:
        return []
    kids = (("t", "%s.%s:" % (t, name)), ("x", "v")) + tuple(("x", c) for c in calls)
    if form == "def":
        return [("c", "def", (name, None), (), kids)]
    if form == "defp":
        return [("c", "def", (name, (("p", "v"), ("q", "'%s'" % t))), (), kids + (("x", "p"), ("x", "q")))]
    if form == "defattr":
        return [el("i", (("k", (("x", "v"),)),), (("def", (name, None)),), kids)]
    if form == "blockif":
        return [el("i", (), (("block", name), ("if", "v")), kids)]
    return [("c", "block", name, (), kids)]


def uses(aliases, defined, own):
    """calls of everything that is available"""
    rv = []
    for a, names in zip(aliases, defined):
        for n in names:
            rv += [("t", "[%s.%s " % (a, n)), ("x", "%s.%s()" % (a, n)), ("t", "]")]
    for n in own:
        rv += [("t", "{%s " % n), ("x", "%s()" % n), ("t", "}")]
    return rv


def templates(case):
    """
    main imports A (as a) and maybe B (as b); A may extend AP or import B itself;
    main may have a parent or a child.  Forms of f and g in every template.
    """
    shape, forms = case
    forms = dict(forms)

    def names(*ts):
        return [n for n in "fg" if any(forms.get((t, n)) for t in ts)]

    def defs(t):
        return define(t, "f", forms.get((t, "f"))) + define(t, "g", forms.get((t, "g")))

    ts = {}
    a_names = ["A"]
    if "aext" in shape:
        ts["AP"] = (el("ap", (), (), defs("AP")),)
        ts["A"] = (("ext", "AP", tuple(defs("A"))),)
        a_names.append("AP")
    elif "aimp" in shape:
        ts["A"] = (el("a", (), (), [("imp", "B", "f1")] + define("A", "f", forms.get(("A", "f")), ["f1.%s()" % n for n in names("B")]) + define("A", "g", forms.get(("A", "g")))),)
    else:
        ts["A"] = (el("a", (), (), defs("A")),)
    aliases, avail = ["a"], [names(*a_names)]
    if "b" in shape or "aimp" in shape:
        ts["B"] = (el("b", (), (), defs("B")),)
    if "b" in shape:
        aliases.append("b")
        avail.append(names("B"))
    imports = [("imp", t, a) for t, a in zip("AB", aliases)]
    if "same" in shape:
        imports.append(("imp", "A", "a2"))
        aliases.append("a2")
        avail.append(avail[0])
    if "parent" in shape:
        own = names("M", "P")
        ts["P"] = (el("p", (), (), defs("P") + [("c", "block", "k", (), ())] + uses([], [], own)),)
        ts["M"] = (("ext", "P", tuple(imports + defs("M") + [("c", "block", "k", (), tuple(uses(aliases, avail, own)))])),)
        return ts, "M"
    own = names("M", "C") if "child" in shape else names("M")
    u = uses(aliases, avail, own)
    if "inblock" in shape:
        u = [("c", "block", "k", (), tuple(u))]
    elif "indef" in shape:
        u = [("c", "def", ("k", None), (), tuple(u)), ("x", "k()")]
    elif "infor" in shape:
        u = [("c", "for", ("i", "'12'"), (), tuple(u))]
    elif "nested" in shape:
        u = [("c", "if", "True", (), (("c", "def", ("k", None), (), tuple(imports + u)), ("x", "k()")))]
        imports = []
    late = "late" in shape
    ts["M"] = (el("m", (), (), (defs("M") + u[:0] if late else []) + imports + ([] if late else defs("M")) + u),)
    if "child" in shape:
        ts["C"] = (("ext", "M", tuple(defs("C"))),)
        return ts, "C"
    return ts, "M"


SHAPES = [(), ("b",), ("parent",), ("child",), ("aext",), ("aimp",), ("same",), ("inblock",), ("indef",), ("infor",), ("nested",), ("late",),
          ("b", "parent"), ("b", "child"), ("aext", "b"), ("aimp", "b"), ("aext", "parent"), ("aext", "child"), ("aimp", "child"), ("aimp", "parent"),
          ("same", "indef"), ("b", "nested"), ("b", "inblock"), ("aext", "nested")]


def roles(shape):
    rv = ["M", "A"]
    if "b" in shape or "aimp" in shape:
        rv.append("B")
    if "aext" in shape:
        rv.append("AP")
    if "parent" in shape:
        rv.append("P")
    if "child" in shape:
        rv.append("C")
    return rv


def gen(shapes, forms_f, forms_g):
    def g(choose):
        shape = choose(shapes)
        fs = []
        for t in roles(shape):
            fs.append(((t, "f"), choose(forms_f)))
        one = choose((False, True))
        for t in roles(shape):
            fs.append(((t, "g"), (choose(forms_g) if one else None)))
        ctx = choose((0, 1))
        return (shape, tuple(x for x in fs if x[1])), ctx
    return g


def run(case):
    tcase, ctx = case
    ts, top = templates(tcase)
    own = {n for (t, n), f in tcase[1] if t in "MPC"}
    c = dict(v="<v>")
    if ctx:
        # values with the names that only imported templates define
        for n in "fg":
            if n not in own:
                c[n] = "value"
    ld = py.loader({n: tk.source(v) for n, v in ts.items()})
    for name in ([top, "A"] if ctx == 0 else [top]):
        t = ld.load(name)
        core.step(1)
        for rnd in (0, 1):
            got, want = py.render(t, c), tk.model_render(ts, name, c)
            core.outcome(got)
            if got != want:
                return "%s\nrender %s with %r\n  gives    %r\n  expected %r" % ("\n".join("%s: %s" % (k, tk.source(v)) for k, v in ts.items()), name, c, got, want)


# names that are not there
BADS = ("i.nothing", "i.nothing()", "i.local()", "i.v", "i._name", "i.m", "i.aux", "i.__main__x", "i.len", "i.str", "i.literal", "i.gettext")
LIBS = {"plain": '<l><py:def function="f"><py:def function="local">x</py:def>F</py:def></l>',
        "ext": '<py:extends href="base"><py:block name="m">M</py:block></py:extends>',
        "imp": '<l><py:import href="base" alias="aux"/><py:def function="f">${aux.f()}</py:def></l>',
        "vars": '<l><?python v = 1; nothing = 2 ?><py:with vars="aux=1"><py:def function="local">x</py:def></py:with><p py:if="v"><py:def function="nothing">n</py:def></p></l>'}
ALWAYS = {("ext", "i.m")}
POS = ("top", "nested", "parent")


def gen_bad(choose):
    return choose(sorted(LIBS)), choose(BADS), choose(POS), choose((0, 1)), choose((0, 1)), choose(("lib.tk", "d/lib.tk", "d/e.f/lib", "\u00e9"))


def run_bad(case):
    lib, expr, pos, inctx, again, name = case
    files = {name: LIBS[lib], "base": '<l><py:def function="f">bf</py:def></l>'}
    imp = '<py:import href="%s" alias="i"/>' % name
    if pos == "top":
        files["t"] = '<m>%s${%s}</m>' % (imp, expr)
    elif pos == "nested":
        files["t"] = '<m><py:def function="k">%s${%s}</py:def>${k()}</m>' % (imp, expr)
    else:
        files["p"] = '<m><py:block name="k"></py:block></m>'
        files["t"] = '<py:extends href="p">%s<py:block name="k">${%s}</py:block></py:extends>' % (imp, expr)
    ld = py.loader(files)
    ctx = dict(v=1)
    if inctx:
        ctx.update(nothing="x", local="x", m="x")
    for i in range(1 + again):
        core.step()
        try:
            got = ld.load("t").render(ctx)
        except AttributeError as e:
            got = "AttributeError"
            if name not in str(e):
                return "the error does not name the template: %s" % e
        except Exception as e:
            got = repr(e)
        core.outcome((expr, got))
        if (lib, expr) in ALWAYS:
            if got == "AttributeError":
                return "%s is not available" % expr
        elif got != "AttributeError":
            return "%r: %s gives %r instead of an AttributeError" % (files, expr, got)


# defs with parameters, forms of definition, arguments
ARGS = ("i.f()", "i.f(1)", "i.f('<', v)", "i.f(q=v)", "i.f(p=i.f())", "i.f(i.g())", "[str(i.f(x)) for x in '12']", "i.g() if v else i.f()")


def gen_args(choose):
    return choose(("defp",)), choose(("def", "block", "defattr", "blockif", "defp")), choose(ARGS), choose(ARGS), choose((0, 1, 2, 3))


def run_args(case):
    f, g, e1, e2, pos = case
    lib = (el("l", (), (), define("L", "f", f) + define("L", "g", g)),)
    body = {0: [("x", e1), el("b", (("k", (("x", e2),)),), (), ())], 1: [el("b", (), (("content", e1),), ()), el("b", (), (("replace", e2),), ())],
            2: [("c", "with", (("z", e1),), (), (("x", "z"), ("x", "z"), ("x", e2)))],
            3: [el("b", (("k", (("t", "x"), ("x", e1), ("x", e2))),), (("if", e1),), (("x", e2),))]}[pos]
    ts = {"lib": lib, "t": (el("m", (), (), [("imp", "lib", "i")] + body),)}
    return py.compare(ts, "t", [dict(v="<v>"), dict(v="")])


# the number and the order of imports
def gen_many(n):
    def g(choose):
        k = choose(range(1, n + 1))
        return tuple(choose("ABC") for _ in range(k)), choose(("fwd", "rev", "interleaved"))
    return g


def run_many(case):
    libs, order = case
    ts = {t: (el("l", (), (), define(t, "f", "def") + define(t, "x%s" % t, "block")),) for t in "ABC"}
    imps = [("imp", t, "i%d" % k) for k, t in enumerate(libs)]
    calls = [("x", "i%d.f()" % k) for k in range(len(libs))] + [("x", "i%d.x%s()" % (k, t)) for k, t in enumerate(libs)]
    if order == "rev":
        kids = imps + calls[::-1]
    elif order == "fwd":
        kids = imps + calls
    else:
        kids = [x for p in zip(imps, calls) for x in p]
    ts["t"] = (el("m", (), (), kids),)
    return py.compare(ts, "t", [dict(v="<")])


# --- what the imported template needs comes from the context, never from the importer's definitions
FREE_LIBS = {"def": '<l><py:def function="f">[${n}]</py:def></l>', "default": '<l><py:def function="f(a=n)">[${a}]</py:def></l>', "block": '<l><py:block name="f">[${n}]</py:block></l>',
             "call": '<l><py:def function="g">${n}</py:def><py:def function="f">[${g()}]</py:def></l>', "inherited": '<py:extends href="lb"><py:def function="g">${n}</py:def></py:extends>',
             "import": '<l><py:def function="f">[<py:import href="lc" alias="c"/>${c.k()}]</py:def></l>', "import2": '<l><py:import href="lc" alias="c"/><py:def function="f">[${c.k()}]</py:def></l>',
             "super": '<py:extends href="lb2"><py:block name="f">[${n}]</py:block></py:extends>'}
FREE_OTHERS = {"lb": '<l><py:def function="f">[${g()}]</py:def></l>', "lb2": '<l><py:block name="f"/></l>', "lc": '<l><py:def function="k">${n}</py:def></l>', "e": "<e/>", "p": '<m><py:block name="b1"/><py:block name="b2"/></m>'}
# @ is where the import and the use are; in the order of the source, and after what binds the name in the last ones
FREE_BINDS = {"nothing": "@", "def": '<py:def function="n">mine</py:def>@', "defafter": '@<py:def function="n">mine</py:def>', "block": '<py:if test="0 == v"><py:block name="n">mine</py:block></py:if>@', "with": '<py:with vars="n=\'mine\'">@</py:with>',
              "for": '<py:for each="n in [\'mine\']">@</py:for>', "param": '<py:def function="d(n)">@</py:def>${d("mine")}', "nested": '<py:if test="v"><py:def function="n">mine</py:def>@</py:if>', "alias": '<py:import href="e" alias="n"/>@',
              "code": "<?py n = 'mine' ?>@", "around": '<py:if test="v"><py:def function="n">@</py:def>${n()}</py:if>', "lambda": '${[x for n in "1" for x in ""]}@'}
FREE_PLACES = {"top": "I U", "if": '<py:if test="v">I U</py:if>', "for": '<py:for each="i in \'1\'">I U</py:for>', "def": '<py:def function="q">I U</py:def>${q()}', "block": '<py:block name="q">I U</py:block>', "with": '<b py:with="z=1">I U</b>', "apart": '<py:if test="v">I</py:if><py:if test="v"><i title="x">I U</i></py:if>',
               "twice": '<py:if test="v">I I U U</py:if>'}


def gen_free(choose):
    return choose(sorted(FREE_LIBS)), choose(sorted(FREE_BINDS)), choose(sorted(FREE_PLACES)), choose(("main", "child")), choose((0, 1))


def run_free(case):
    lib, bind, place, where, inctx = case
    text = FREE_BINDS[bind].replace("@", FREE_PLACES[place].replace("I", '<py:import href="lib" alias="a"/>').replace("U", "${a.f()}"))
    files = dict(FREE_OTHERS, lib=FREE_LIBS[lib])
    if where == "main":
        files["t"] = "<m>%s</m>" % text
    elif bind in ("def", "defafter", "alias", "nothing"):
        # next to the block
        a, b = FREE_BINDS[bind].split("@")
        files["t"] = '<py:extends href="p">%s<py:block name="b1">%s</py:block>%s</py:extends>' % (a, text[len(a):len(text) - len(b)], b)
    else:
        files["t"] = '<py:extends href="p"><py:block name="b1">%s</py:block></py:extends>' % text
    t = py.loader(files).load("t")
    ctx = dict(v=1)
    if inctx:
        ctx["n"] = "ctx"
    for i in range(2):
        core.step()
        try:
            got = t.render(ctx)
        except NameError as e:
            got = "NameError" if "'n'" in str(e) else repr(e)
        except Exception as e:
            got = repr(e)
        core.outcome((case[1:3], got))
        want = "[ctx]" if inctx else "NameError"
        if (want not in got if inctx else got != want) or "mine" in got.replace("mine</", ""):
            return "%r\nwith %r gives %r, expected %s from the imported template" % (files, ctx, got, want)


def suites(tier):
    deep = tier == "thorough"
    return [
        core.Suite("collisions", gen(SHAPES, (None, "def", "block") if not deep else (None, "def", "block", "defp", "blockif"), (None, "def") if not deep else (None, "def", "block")), run,
                   "all assignments of definitions of f and g to importer, its parent and child, imported templates and their parents and imports"),
        core.Suite("undefined", gen_bad, run_bad, "names that the imported template does not define"),
        core.Suite("free", gen_free, run_free, "names that the imported template gets from the context, with the same names bound in every way around the import"),
        core.Suite("arguments", gen_args, run_args, "calls with arguments in all positions"),
        core.Suite("many", gen_many(4 if deep else 3), run_many, "several imports, also of the same template"),
        sizes.suite("imports many_imports defs blocks chain_def", tier),
    ]
