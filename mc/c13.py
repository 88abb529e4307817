"""C13: message extraction agrees with what rendering looks up."""
import io

from mc import core, names, py, sizes, tk
from mc.c01 import el
from mc.c12 import ATTR, ITEMS, OTHER, SOME, TEXTS, TR_NAMES, item, textlike, txt


def extract(src, form=0):
    """the extracted messages: tuples of the arguments of gettext and ngettext"""
    from tonnikala.i18n import TonnikalaExtractor, extract_tonnikala, Options
    core.step()
    if form == 0:
        return [(f,) + tuple(m) for l, f, m, c in extract_tonnikala(io.BytesIO(src.encode("utf-8")), ["gettext"], [], {})]
    if form == 1:
        return [(f,) + tuple(m) for l, f, m, c in extract_tonnikala(io.StringIO(src), ["gettext"], [], {})]
    rv = []
    if form == 2:
        msgs = TonnikalaExtractor()("name.tk", Options(), io.StringIO(src))
    else:
        d = py.fresh_dir()
        py.write_files(d, {"name.tk": src})
        msgs = TonnikalaExtractor()(d + "/name.tk", Options())
    for m in msgs:
        rv.append((("p" if m.msgctxt else "") + ("ngettext" if m.msgid_plural else "gettext"),) + ((m.msgctxt,) if m.msgctxt else ()) +
                  (m.msgid,) + ((m.msgid_plural,) if m.msgid_plural else ()))
    return rv


CTXS = [dict(v="<v>", n=None, c=c, w=[1, 2], at={"z": "<v>"}, ident=str, none=[], d={}) for c in (True, False)]


def looked_up(files, name, own=None):
    """everything that renders with all outcomes of the conditions look up"""
    calls = set()

    def gettext(s):
        calls.add(("gettext", s))
        return s

    def ngettext(s, p, n):
        calls.add(("ngettext", s, p))
        return s

    def pgettext(c, s):
        calls.add(("pgettext", c, s))
        return s

    ld = py.loader(files, translatable=True)
    t = ld.load(name)
    parts = set(("__main__",))
    for ctx in CTXS:
        out = py.render(t, dict(ctx, gettext=gettext, _=gettext, ngettext=ngettext, pgettext=pgettext))
        if out[0] != "ok":
            raise RuntimeError("%r: %r" % (files, out))
    return calls


def compare(src, form=0):
    got = set(extract(src, form))
    want = looked_up({"t": src}, "t")
    core.outcome(tuple(sorted(got)))
    if got != want:
        return "%s\n  extracted, not looked up: %r\n  looked up, not extracted: %r" % (src, sorted(got - want), sorted(want - got))


def gen_children(n, items):
    def g(choose):
        rv = []
        for i in range(n):
            it = choose(items)
            if rv and textlike(it) and textlike(rv[-1]):
                raise core.Skip()
            if it == "call" and "def" not in rv or it in ("def", "block") and it in rv:
                raise core.Skip()
            rv.append(it)
        return tuple(rv), choose((0, 1, 2, 3)) if n < 3 else 0
    return g


def run_children(case):
    items, form = case
    kids = [item(i) for i in items]
    if "def" in items and "call" not in items:
        kids.append(("x", "f()"))
    return compare(tk.source((el("p", (), (), kids),)), form)


def gen_attrs(choose):
    return choose(TR_NAMES + OTHER), choose(sorted(ATTR)), choose(("b", "br", "script", "textarea")), choose((None, "strip", "if", "for", "content", "replace", "def", "block", "attrs")), choose(("txt", "x", "none"))


def run_attrs(case):
    name, val, tag, ctl, kids = case
    k = () if tag in tk.VOID or kids == "none" else (txt(" body\n"),) if kids == "txt" else (("x", "v"),)
    c = {None: (), "strip": (("strip", "c"),), "if": (("if", "c"),), "for": (("for", ("i", "w")),), "content": (("content", "v"),), "replace": (("replace", "v"),),
         "def": (("def", ("f", None)),), "block": (("block", "bl"),), "attrs": (("attrs", "at"),)}[ctl]
    return compare(tk.source((el("h", (), (), (el(tag, ((name, ATTR[val]),), c, k), ("x", "f() if c else ''") if ctl == "def" else ("t", ""))),)))


# gettext calls in expressions
ARGS = ["'m'", '"m"', "'a\\n b'", "'''a\n b'''", "'a' 'b'", "'\u00e9<&'", "u'u'", "r'\\n'", "'%s {x}'", "'$x ${y}'", "' sp '", "'it\\'s'", '"q\\"q"', "'\\u20ac'", "'}'", "'a'\n  'b'"]
CALLS = ["gettext(%s)", " gettext( %s ) ", "_(%s)", "ngettext(%s, 'pl', 2)", "pgettext('ctx', %s)", "gettext(%s) + '!'", "[gettext(%s), 1]", "str(gettext(%s))",
         "(gettext(%s)\n if c\n  else '')", "gettext(%s).upper()", "(lambda: gettext(%s))()", "[gettext(%s) for i in w]", "dict(a=gettext(%s))", "gettext(%s) if c else gettext('other')",
         "'%%s' %% gettext(%s)", "gettext(%s) == _('z')", "ident(gettext(%s))", "ngettext('si', %s, len(w))"]
PLACES = {
    "text": "<p>${%s}</p>", "attr": '<p class="${%s}"></p>', "mixed": '<p title="a ${%s}">b ${v} c</p>', "content": '<p py:content="%s">never</p>', "replace": '<p><q py:replace="%s"/></p>',
    "script": "<script>var x = '${%s}';</script>", "second": "<p>t ${v}\n\n${v} ${%s} u</p>", "replaceel": '<p><py:replace value="%s"/></p>', "indef": '<p><py:def function="g">${%s}</py:def>${g()}</p>',
    "infor": '<p><py:for each="i in w">${%s} x</py:for></p>', "inblock": '<p><py:block name="k"><b title="${%s}" class="y"/></py:block></p>',
}


def gen_calls(choose):
    return choose(range(len(CALLS))), choose(range(len(ARGS))), choose(sorted(PLACES))


def run_calls(case):
    i, j, place = case
    code = CALLS[i] % ARGS[j]
    if place in ("attr", "mixed", "content", "replace", "replaceel", "inblock"):
        code = tk.esc_attr(code)
    elif place != "script":
        code = tk.esc_text(code)
    src = PLACES[place] % code
    return compare(src)


def gen_pairs(choose):
    return choose(range(len(CALLS))), choose(range(len(CALLS)))


def run_pairs(case):
    i, j = case
    return compare('<p>one ${%s} two ${%s}<b title="${%s}">${%s}</b></p>' % (
        CALLS[i] % "'A'", CALLS[j] % "'B'", CALLS[i] % "'C'", CALLS[j] % "'D'"))


# several files: messages are extracted from each file
def gen_files(choose):
    return choose(SOME), choose(SOME), choose(("ext", "imp"))


def run_files(case):
    i1, i2, kind = case
    if "call" in (i1, i2) or (i1, i2) == ("block", "block") or "block" in (i1, i2) and kind == "imp":
        return None
    k1, k2 = [item(i1), txt("one")], [item(i2), el("b", (), (), (txt("two"),))]
    if i1[:2] == "t:":
        k1 = k1[:1]
    if i1 == "def":
        k1.append(("x", "f()"))
    if i2 == "def":
        k2.append(("x", "f()"))
    if kind == "imp":
        ts = {"l": (el("l", (), (), (("c", "def", ("g", None), (), tuple(k1)),)),), "t": (el("p", (), (), [("imp", "l", "m"), ("x", "m.g()")] + k2),)}
    else:
        ts = {"l": (el("l", (), (), [("c", "block", "g", (), ()), el("m", (), (), k1)]),), "t": (("ext", "l", (txt("\n"), ("c", "block", "g", (), tuple(k2)), txt(" "))),)}
    srcs = {n: tk.source(v) for n, v in ts.items()}
    got = set()
    for s in srcs.values():
        got |= set(extract(s))
    want = looked_up(srcs, "t")
    if got != want:
        return "%r\n  extracted, not looked up: %r\n  looked up, not extracted: %r" % (srcs, sorted(got - want), sorted(want - got))


def gen_mixed(n):
    from mc import c12
    return c12.gen_mixed(n)


def run_mixed(case):
    pieces, where = case
    parts = []
    for p in pieces:
        if p == "v":
            parts.append(("x", "v"))
        elif parts and parts[-1][0] == "t":
            parts[-1] = txt(parts[-1][1] + p)
        else:
            parts.append(txt(p))
    if where == "attr":
        nodes = (el("p", (("title", tuple(parts)),), (), ()),)
    elif where == "strip":
        nodes = (el("p", (), (), (el("q", (), (("strip", "c"),), parts),)),)
    else:
        nodes = (el("p" if where == "text" else "script", (), (), parts),)
    return compare(tk.source(nodes))


# ------------------------------------------------ every element and attribute
def run_elements(case):
    return compare(tk.source(names.tag_nodes(case[:3])), case[3])


def gen_elements(choose):
    return names.gen_tags(ctls=tuple(k for k in sorted(names.CTLS) if k != "strip0"), forms=("static", "dynamic", "title", "nested"))(choose) + (choose((0, 2)),)


def run_names(case):
    return compare(tk.source(names.attr_nodes(case[:4])), case[4])


def gen_names(choose):
    return names.gen_attrs(ctls=("", "given", "if"), tags=("p", "input", "img"))(choose) + (choose((0, 2)),)


# ------------------------------------------------ how much there is
SIZED = tuple("children static expressions parts attributes characters words spaces messages depth defs blocks comment name_tag".split())


def run_size(case):
    r = compare(tk.source(sizes.case(*case)[0]["t"]))
    return r and r[:600] + " ... " + r[-600:]


def suites(tier):
    deep = tier == "thorough"
    return [
        core.Suite("children", gen_children(2, ITEMS), run_children, "all pairs of children, all ways of extracting"),
        core.Suite("triples", gen_children(3, ITEMS if deep else SOME), run_children, "all triples of children"),
        core.Suite("attributes", gen_attrs, run_attrs, "attributes of elements with control attributes"),
        core.Suite("calls", gen_calls, run_calls, "gettext calls with literal arguments in every place"),
        core.Suite("call_pairs", gen_pairs, run_pairs, "pairs of calls"),
        core.Suite("elements", gen_elements, run_elements, "every HTML element with every construct"),
        core.Suite("names", gen_names, run_names, "every HTML attribute, on three elements"),
        core.Suite("files", gen_files, run_files, "inheritance and imports"),
        core.Suite("size", sizes.gen(SIZED, deep), run_size, "%d kinds of templates of up to %d parts" % (len(SIZED), 1025 if deep else 257)),
        core.Suite("mixed", gen_mixed(5 if deep else 4), run_mixed, "sequences of text pieces and expressions"),
    ]
