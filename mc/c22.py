"""C22: Chameleon syntax is equivalent to the corresponding Tonnikala syntax."""
import itertools

from mc import c01, c02, c03, c06, core, names, py, sizes, tk
from mc.c01 import el

CHAMELEON = "chameleon"
RENAMED = {"if": "condition", "for": "repeat", "strip": "omit-tag"}


def compare(nodes, ctxs, name="t", model=True):
    """Chameleon, Tonnikala and the model agree for every context"""
    tal, pyt = py.load1(tk.source(nodes, "tal"), syntax=CHAMELEON), py.load1(tk.source(nodes, "py"))
    for ctx in ctxs:
        a, b = py.render(tal, ctx), py.render(pyt, ctx)
        want = tk.model_render({name: nodes}, name, ctx) if model else b
        core.outcome(a)
        if not (a == b == want):
            return "%s\nwith %r\n  gives    %r\n  Tonnikala syntax gives %r\n  expected %r" % (
                tk.source(nodes, "tal"), ctx, a, b, want)


# ------------------------------------------------------------ one element
CTL = {"if": "w", "for": ("i", "L"), "strip": "s", "content": "c", "replace": "r", "attrs": "at"}
KINDS = sorted(CTL)
ALT = {"if": ("not w", "i", "f(w)", "'&lt;' < w", " w ", "(w\nor n)"), "for": (("i, j", "M"), ("i", "range(n)"), ("(i, j)", "M"), ("i", "f(L)"), ("i ", " L "), ("i", "(\nL)")),
       "strip": ("", "i", "not s", "f(s)", "  ", "\n", " s ", "\ts"), "content": ("", "i", "literal(c)", "c + '&'", "f(c)", "'${c}'", " c ", "(c\n)"),
       "replace": ("i", "literal(r)", "r + '<'", "f(r)", "None", " r", "r\n"),
       "attrs": ("None", "{'a': i}", "dict(k=c)", "[('x', c), ('x', r)]", "f(at)", " at ", "(\nat)")}
FORMS = ("p", "void", "script", "empty", "self")


def ctxs(kinds, boom=False):
    f = lambda x: x
    base = dict(i="ci<", j="cj", w="a", s=0, c="<c>", r="<r>", at=[("k", "<"), ("n", None), ("t", True), ("z", 3)], n=2, f=f,
                L=[1, "<2>"], M=[(1, 2), ("<", "&")])
    rv = [base]
    if "if" in kinds:
        rv += [dict(c, w=v) for c in list(rv) for v in ("", [])]
    if "for" in kinds:
        rv += [dict(c, L=L, n=0, M=[]) for c in list(rv) for L in ((), "<b")]
    if "strip" in kinds:
        rv += [dict(c, s=1) for c in rv]
    if "content" in kinds or "replace" in kinds:
        from markupsafe import Markup
        rv += [dict(c, c=v, r=v) for c in rv[:2] for v in (None, Markup("<m>"), 0, c01.Html())]
    return rv


def element(form, ctl, kids=None):
    attrs = (("id", (("x", "i"), ("t", "-&"))), ("st", (("t", "<"),)), ("val", (("x", "c"),)), ("nov", None))
    kids = kids or (("t", "k&<"), ("x", "i"), ("n", "c"))
    if form == "void":
        return el("br", attrs, ctl, ())
    if form == "script":
        return el("script", attrs, ctl, (("t", "1<2&&"), ("x", "c")))
    if form in ("empty", "self"):
        return el("div", (), ctl, ())
    return el("p", attrs, ctl, kids)


def gen_combo(maxperm):
    def gen(choose):
        form = choose(FORMS)
        kinds = tuple(k for k in KINDS if choose((0, 1)))
        if form == "void" and "content" in kinds:
            raise core.Skip()
        if len(kinds) <= maxperm:
            left, order = list(kinds), []
            while left:
                k = choose(left)
                left.remove(k)
                order.append(k)
            kinds = tuple(order)
        elif choose((0, 1)):
            kinds = kinds[::-1]
        return form, kinds, choose(("root", "in", "in-for", "in-p"))
    return gen


def place(where, node):
    if where == "root":
        return (node,)
    if where == "in":
        return (el("html", (), (), [("t", "<1>"), node, ("t", "2")]),)
    if where == "in-for":
        return (el("html", (), (), [el("u", (), (("for", ("i", "'xy'")),), [("x", "i"), node])]),)
    return (el("html", (), (), [el("u", (("a", (("x", "c"),)),), (("if", "1"), ("strip", "")), [node, node])]),)


def run_combo(case):
    form, kinds, where = case
    ctl = tuple((k, CTL[k]) for k in kinds)
    return compare(place(where, element(form, ctl)), ctxs(kinds))


def gen_alt(choose):
    """pairs of constructs with other arguments"""
    k = choose(KINDS)
    a = choose(ALT[k])
    o = choose([None] + [x for x in KINDS if x != k])
    b = None
    if o:
        b = choose((CTL[o],) + ALT[o])
    if o == "strip" or k == "strip":
        # the expression of a strip is evaluated for both tags
        pass
    form = choose(("p", "void"))
    if form == "void" and "content" in (k, o):
        raise core.Skip()
    return k, a, o, b, form


def run_alt(case):
    k, a, o, b, form = case
    ctl = ((k, a),) + (((o, b),) if o else ())
    return compare(place("in", element(form, ctl)), ctxs((k, o)), model=False)


# --------------------------------------------------------------- nesting
def nodes_gen(depth, width):
    """each: control attributes of an element and what it contains"""
    def node(choose, d, level):
        kind = choose(("text", "expr", "void") if d == 0 else ("expr", "if", "for", "strip", "content", "replace", "tagreplace", "attrs", "iffor", "plain"))
        v = "abcd"[level]
        if kind == "text":
            return ("t", "<x&")
        if kind == "expr":
            return ("x", v)
        if kind == "void":
            return el("br", (("q", (("x", v),)),))
        if kind == "tagreplace":
            return ("c", "replace", v, (), ())
        # the variable of a loop has a name of its own
        w = "abcd"[min(level + 1, 3)]
        ctl = {"if": (("if", "w"),), "for": (("for", (w, "L")),), "strip": (("strip", v),), "content": (("content", v),),
               "replace": (("replace", v),), "attrs": (("attrs", "{'k': %s}" % v),),
               "iffor": (("if", "w"), ("for", (w, "L")), ("attrs", "[('m', %s)]" % w)), "plain": ()}[kind]
        kids = tuple(node(choose, d - 1, level + (kind in ("for", "iffor") and level < 3)) for _ in range(choose((0, 1, 2) if width > 1 else (0, 1))))
        return el("i", (("z", (("x", v),)),) if kind in ("plain", "strip") else (), ctl, kids)

    def gen(choose):
        return tuple(node(choose, depth, 0) for _ in range(choose((1, 2) if depth < 2 else (1,))))
    return gen


def run_nested(case):
    return compare((el("html", (), (), case),), [dict(a="<A>", w=w, L=L) for w in (1, 0) for L in ([1, "<"], ())])


# ------------------------------------------------------------ interpolation, static markup
ALPHABET = ["$", "{", "}", "a", "1", "'", '"', " ", "$$", "${a}", "$a", ".", "\n", "${'}'}", "\\", "[", "+"]


def gen_string(n):
    def gen(choose):
        return "".join(choose(ALPHABET) for _ in range(choose(n))), choose(("text", "attr", "script", "comment"))
    return gen


def outcome(src, ctx, **kw):
    try:
        t = py.load1(src, **kw)
    except Exception as e:
        return "compile", type(e).__name__
    return py.render(t, ctx)


def run_string(case):
    s, where = case
    if where == "attr":
        src = "<p a='%s'>x</p>" % s.replace("'", "&#39;")
    elif where == "comment":
        src = "<p><!--%s--></p>" % s
    else:
        src = ("<p>%s</p>" if where == "text" else "<script>%s</script>") % s
    ctx = {"a": "<A>"}
    got, want = outcome(src, ctx, syntax=CHAMELEON), outcome(src, ctx)
    core.outcome(got)
    if got != want:
        return "%r\n  gives    %r\n  expected %r as with Tonnikala syntax" % (src, got, want)


PIECES = [p for p in c02.PIECES if "py:" not in p[0]]


def run_pieces(case):
    src = "".join(PIECES[i][0] for i in case)
    want = "".join(PIECES[i][1] for i in case)
    return c02.check("<html>%s</html>" % src, "<html>%s</html>" % want, syntax=CHAMELEON)


def run_attrs(case):
    seq, sep, tag = case
    return c02_attrs(seq, sep, tag)


def c02_attrs(seq, sep, tag):
    src = "<%s%s>x</%s>" % (tag, "".join(sep + c02.ATTRS[i][0] for i in seq), tag)
    want = "<%s%s>x</%s>" % (tag, "".join(c02.ATTRS[i][1] for i in seq), tag)
    return c02.check("<html>%s</html>" % src, "<html>%s</html>" % want, syntax=CHAMELEON)


def gen_attrs(n):
    def gen(choose):
        left, seq = list(range(len(c02.ATTRS))), []
        for _ in range(choose(n)):
            i = choose(left)
            left.remove(i)
            seq.append(i)
        return tuple(seq), choose((" ", "\n")), choose(("p", "script"))
    return gen


def gen_doc(choose):
    misc = [m for m in c02.MISC if not m[0].startswith("<?")]
    return choose(c02.DOCTYPES), choose(misc), choose(misc), choose(misc), choose(("<p>x</p>", "<br/>", '<p tal:condition="1">x</p>', '<p tal:repeat="i in \'a\'">$i</p>',
                                                                               "<p tal:replace=\"'x'\"/>", '<p tal:omit-tag="">x</p>'))


DOC_OUT = {"<p>x</p>": "<p>x</p>", "<br/>": "<br />", '<p tal:condition="1">x</p>': "<p>x</p>", '<p tal:repeat="i in \'a\'">$i</p>': "<p>a</p>",
           "<p tal:replace=\"'x'\"/>": "x", '<p tal:omit-tag="">x</p>': "x"}


def run_doc(case):
    d, a, b, c, root = case
    src = a[0] + d[0] + b[0] + root + c[0]
    want = a[1] + d[1] + b[1] + DOC_OUT[root] + c[1]
    got = py.render(py.load1(src, syntax=CHAMELEON), {})
    core.outcome(got)
    if got[0] != "ok" or c02.norm(got[1]) != c02.norm(want):
        return "%r\n  gives    %r\n  expected %r" % (src, got, want)


# --------------------------------------------------------------- values
V = None


def prepare():
    global V
    V = c01.values()
    c06.prepare()


def gen_values(choose):
    return choose(len(c01.SINKS)), choose(len(c01.EXPRS)), choose(("root", "for", "if"))


def run_values(case):
    s, e, where = case
    expr = c01.EXPRS[e]
    nodes = c01.SINKS[s](expr)
    if where == "for":
        nodes = [el("s", (), (("for", ("q", "(1, 2)")),), nodes)]
    elif where == "if":
        nodes = [el("s", (), (("if", "v is not 7"), ("strip", "w")), nodes)]
    nodes = (el("html", (), (), nodes),)
    tal, pyt = py.load1(tk.source(nodes, "tal"), syntax=CHAMELEON), py.load1(tk.source(nodes))
    for i, v in enumerate(V):
        ctx = dict(v=v, w=V[(i + 1) % len(V)], u=V[(i + 2) % len(V)], f=lambda x: x)
        a, b = py.render(tal, ctx), py.render(pyt, ctx)
        core.outcome(a)
        if a != b:
            return "%s\nwith v=%r\n  gives    %r\n  expected %r as with Tonnikala syntax" % (tk.source(nodes, "tal"), v, a, b)


def gen_attributes(n, pas):
    return c06.gen(n, False, pas)


def run_attributes(case):
    if case[2] in ("in-def", "p-if"):
        return None
    return compare(c06.build(case), c06.contexts(max(len(case[0]), 2 if case[1] else 0), case[3]))


# --------------------------------------------------------------- failing expressions
FAIL = {"none": "ok", "missing": "err:NameError", "zero": "err:ZeroDivisionError"}
POS = ["if", "for", "strip", "content", "replace", "attrs", "text", "attribute"]


def gen_fail(choose):
    bad = tuple(choose(("ok", "missing", "1/0", "v.x")) for _ in POS[:6])
    if sum(b != "ok" for b in bad) > 2:
        raise core.Skip()
    present = tuple(b != "ok" or choose((0, 1)) for b in bad)
    return bad, present, choose(("p", "void"))


def run_fail(case):
    bad, present, form = case
    good = {"if": "1", "strip": "0", "content": "c", "replace": "r", "attrs": "{}"}
    ctl = []
    for k, b, p in zip(POS, bad, present):
        if not p or (k == "content" and form == "void"):
            continue
        ctl.append((k, (("i", "L") if k == "for" else good[k]) if b == "ok" else (("i", b) if k == "for" else b)))
    return compare(place("in", element(form, tuple(ctl))), [dict(i=1, c="<c>", r="<r>", L=[1], v=3), dict(i=1, c="<c>", r="<r>", L=[], v=3)])


# --------------------------------------------------------------- malformed sources
BAD = ["<", ">", "</p>", "<p>", "<b", "</", "/>", "<br>", "&", "&amp", "${", "}", "${a", 'tal:x=""', ' a="', "'", "x", "<!--", "-->", "<!", "<?", "?>",
       '<p tal:repeat="x">', '<p tal:condition="1 +">', '<p tal:condition="a b">', '<p tal:repeat="i in">', '<p tal:content="(">', '<p a="${">']


def gen_bad(n):
    return lambda choose: tuple(choose(BAD) for _ in range(choose(n)))


def run_bad(case):
    def convert(s):
        for a, b in (("condition", "if"), ("repeat", "for"), ("omit-tag", "strip"), ("content", "content")):
            s = s.replace("tal:" + a, "py:" + b)
        return s
    tal = "<html>" + "".join(case) + "</html>"
    pyt = convert(tal)
    if "<?" in tal or "tal:x" in tal:
        return None
    got, want = outcome(tal, {"a": 1, "x": 2}, syntax=CHAMELEON), outcome(pyt, {"a": 1, "x": 2})
    core.outcome(got)
    # markup that ended in a comment is not control markup
    if (got[0], convert(got[1])) != want:
        return "%r\n  gives    %r\n  expected %r as with Tonnikala syntax" % (tal, got, want)


# --------------------------------------------------------------- loading
def gen_load(choose):
    return choose(("string", "file")), tuple(choose(KINDS) for _ in range(choose((0, 1, 2))))


def run_load(case):
    how, kinds = case
    from tonnikala.loader import FileLoader, Loader
    kinds = tuple(dict.fromkeys(kinds))
    nodes = place("in", element("p", tuple((k, CTL[k]) for k in kinds)))
    src = tk.source(nodes, "tal")
    if how == "string":
        t = Loader(syntax=CHAMELEON).load_string(src)
    else:
        d = py.fresh_dir()
        py.write_files(d, {"t.pt": src})
        t = FileLoader([d], syntax=CHAMELEON).load("t.pt")
    core.step()
    for ctx in ctxs(kinds):
        got, want = py.render(t, ctx), tk.model_render({"t": nodes}, "t", ctx)
        core.outcome(got)
        if got != want:
            return "%s loaded as %s\n  gives    %r\n  expected %r" % (src, how, got, want)


# ------------------------------------------------------------ forms of expressions
SPECIAL = ["'a;b'", "';'", "v; v", "v;", "';;'", "v;;v", "'a|b'", "v | v", "'x:y'", "'python:x'", "string:x", "python: v", "'structure x'", "structure v", "text v", "not: v", "exists: v", "nothing", "default", "v/k", "v|None",
           "'$v'", "'${v}'", "'$$'", "{'a': v}['a']", "{v: ';'}", "v[0:1]", "lambda: v", "(lambda x: x)(v)", "v if v else ';'", "'%s;' % v", "v ; ", '"v;" + "|"', "a; b in v", "dict(a=';')", "'tal:content'", "repeat", "attrs", "econtext"]
POSITIONS = {
    "content": ('<b tal:content="@">x</b>', '<b py:content="@">x</b>'), "replace": ('<b tal:replace="@">x</b>', '<b py:replace="@">x</b>'),
    "condition": ('<b tal:condition="@">x</b>', '<b py:if="@">x</b>'), "repeat": ('<b tal:repeat="i in @">$i,</b>', '<b py:for="i in @">$i,</b>'),
    "omit": ('<b tal:omit-tag="@">x</b>', '<b py:strip="@">x</b>'), "attrs": ('<b k="1" tal:attrs="@">x</b>', '<b k="1" py:attrs="@">x</b>'),
    "text": ("<b>x${@}y</b>",) * 2, "attr": ('<b k="${@}" l="x${@}">x</b>',) * 2, "script": ("<script>x${@}y</script>",) * 2,
    "content_in": ('<b tal:repeat="i in L" tal:condition="i" tal:content="@">x</b>', '<b py:for="i in L" py:if="i" py:content="@">x</b>'),
    "all": ('<b k="${@}" tal:condition="@" tal:omit-tag="not (@)" tal:attrs="{\'l\': @}" tal:content="@"/>', None),
}
POSITIONS["all"] = (POSITIONS["all"][0], '<py:if test="@"><b k="${@}" py:strip="not (@)" py:attrs="{\'l\': @}" py:content="@"/></py:if>')


def gen_expr(level):
    def g(choose):
        pos = choose(sorted(POSITIONS))
        if level == 0:
            return pos, choose(SPECIAL + c01.ATOMS)
        f = choose(c01.FORMS)
        return pos, c01.form(f, choose(["v", "'<;\"'"]), choose(c01.OTHER[:1]))
    return g


def load_or_error(src, **kw):
    from tonnikala.runtime.exceptions import TemplateSyntaxError
    try:
        return py.load1(src, **kw), None
    except TemplateSyntaxError as e:
        return None, e.message


def run_expr(case):
    pos, e = case
    e = e.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;") if pos not in ("text", "script") else e.replace("</", "< /")
    tal, pyt = ("<p>%s</p>" % x.replace("@", e) for x in POSITIONS[pos])
    (a, ea), (b, eb) = load_or_error(tal, syntax=CHAMELEON), load_or_error(pyt)
    if (a is None) != (b is None):
        return "%s: %s\n%s: %s" % (tal, ea or "is accepted", pyt, eb or "is accepted")
    if a is None:
        core.outcome("rejected")
        return None
    from markupsafe import Markup
    for v in ("<v;>", Markup("<m>"), None, 0, [("k", "<"), ("w", None)], {"k": ";"}):
        ctx = dict(v=v, w=1, L=[1, 0, 2])
        x, y = py.render(a, ctx), py.render(b, ctx)
        core.outcome(x)
        if x != y and not (" at 0x" in str(x) and " at 0x" in str(y)):
            return "with v = %r\n%s gives %r\n%s gives %r" % (v, tal, x, pyt, y)


# ------------------------------------------------ every element and attribute
TAL_CTLS = ("", "strip", "strip0", "attrs", "content", "replace", "if", "for")


def run_elements(case):
    return compare(names.tag_nodes(case), names.contexts(("<v>",)))


def run_names(case):
    return compare(names.attr_nodes(case), names.contexts(("<v>",))[:1])


SIZED = tuple("children static expressions names variables value attrs_dict attrs_list parts attributes dynamic_attributes overridden_attributes characters comment literal depth depth_strip strips contents element_for element_ifs name_tag words spaces".split())


def run_size(case):
    ts, ctx = sizes.case(*case)
    r = compare(ts["t"], [ctx])
    return r and r[:600] + " ... " + r[-600:]


# ------------------------------------------------ constructs without a value
TAL_NAMES = {"condition": "if", "repeat": "for", "omit-tag": "strip", "content": "content", "replace": "replace", "attrs": "attrs"}
NOTHING = ("", "=''", '=""', "=' '", '="\n\t"')


def gen_valueless(choose):
    k, o = choose(sorted(TAL_NAMES)), choose([None] + sorted(TAL_NAMES))
    return k, choose(NOTHING), o, choose(NOTHING + ('="1"', '="a"')), choose(("p", "script")), choose(("x$a", ""))


def run_valueless(case):
    """nothing as the value of a construct, as in Tonnikala syntax"""
    k, v, o, w, tag, inner = case
    if k == o:
        return None
    tal = " tal:%s%s" % (k, v) + (" tal:%s%s" % (o, w) if o else "")
    pyt = " py:%s%s" % (TAL_NAMES[k], v) + (" py:%s%s" % (TAL_NAMES[o], w) if o else "")
    for a in ("<A>", ""):
        ctx = {"a": a}
        got = outcome("<r><%s b='2'%s>%s</%s></r>" % (tag, tal, inner, tag), ctx, syntax=CHAMELEON)
        want = outcome("<r><%s b='2'%s>%s</%s></r>" % (tag, pyt, inner, tag), ctx)
        core.outcome(got)
        if got != want:
            return "%s of %r\n  gives    %r\n  expected %r as with%s" % (tal, ctx, got, want, pyt)


def suites(tier):
    deep = tier == "thorough"
    S = core.Suite
    return [
        S("load", gen_load, run_load, "loading from strings and files"),
        S("combinations", gen_combo(4 if deep else 3), run_combo, "every subset of the six constructs, in every order of up to %d of them, "
          "x element forms x places" % (4 if deep else 3)),
        S("valueless", gen_valueless, run_valueless, "constructs without a value or with nothing in it"),
        S("arguments", gen_alt, run_alt, "pairs of constructs with every argument form"),
        S("nesting1", nodes_gen(1, 2), run_nested, "nestings of depth 1, up to two children"),
        S("nesting2", nodes_gen(2, 2 if deep else 1), run_nested, "nestings of depth 2, up to %s" % ("two children" if deep else "one child")),
        S("nesting3", nodes_gen(3, 1), run_nested, "nestings of depth 3, one child"),
        S("interpolation", gen_string((0, 1, 2, 3)), run_string, "strings over %d pieces in text, attributes, scripts and comments" % len(ALPHABET)),
        S("content", lambda choose: tuple(choose(len(PIECES)) for _ in range(choose((1, 2, 3)))), run_pieces, "sequences of pieces of markup"),
        S("attributes", gen_attrs((0, 1, 2, 3)), run_attrs, "sequences of attributes"),
        S("dynamic_attributes", gen_attributes((0, 1, 2) if deep else (0, 1), [None] + sorted(c06.PYATTRS)), run_attributes, "attribute forms with tal:attrs"),
        S("documents", gen_doc, run_doc, "doctypes and comments around the root"),
        S("elements", names.gen_tags(ctls=TAL_CTLS, forms=("static", "dynamic", "title", "nested")), run_elements, "every HTML element with every construct"),
        S("names", names.gen_attrs(ctls=("", "given", "if"), tags=("p", "input", "script")), run_names, "every HTML attribute, on three elements"),
        S("values", gen_values, run_values, "sinks x expressions x values of C01"),
        S("special", gen_expr(0), run_expr, "expressions with characters and words that have a meaning in TAL, in every position"),
        S("forms", gen_expr(1), run_expr, "%d forms of expressions in every position" % len(c01.FORMS)),
        S("failing", gen_fail, run_fail, "failing expressions in up to two constructs"),
        S("size", sizes.gen(SIZED, deep), run_size, "%d kinds of templates of up to %d parts" % (len(SIZED), 1025 if deep else 257)),
        S("malformed", gen_bad((0, 1, 2, 3)), run_bad, "sequences of broken pieces"),
    ]
