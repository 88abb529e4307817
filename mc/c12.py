"""C12: translation changes only translatable text, each exactly once."""
import re

from mc import core, names, py, sizes, tk
from mc.c01 import el

TEXTS = ["hi", " hi ", "\n a  b\n ", "a&<'\"", "  ", "$", "\u00e9\u00a0", "\u00a0x", "x\t", "100%"]
ATTR = {
    "t": (("t", "at"),), "ws": (("t", " at\n"),), "tx": (("t", "a "), ("x", "v"), ("t", " b")), "x": (("x", "v"),), "xx": (("x", "v"), ("t", " "), ("x", "v")),
    "none": None, "empty": (("t", ""),), "esc": (("t", "<&\""),), "blank": (("t", " "),), "$": (("t", "$ "), ("x", "n")),
}
TR_NAMES = ("title", "alt", "placeholder", "value", "caption")
OTHER = ("class", "data-title", "titles", "href", "summary")


def txt(s):
    return ("t", s)


def item(name):
    """a child of the enclosing element"""
    a, _, b = name.partition(":")
    return {
        "x": lambda: ("x", "v"),
        "safe": lambda: ("x", "literal('<i>')"),
        "b": lambda: el("b", (), (), (txt(" bold "),)),
        "be": lambda: el("b", (), (), (("x", "v"), txt(" tail"))),
        "br": lambda: el("br", (), (), ()),
        "script": lambda: el("script", (), (), (txt("if (a<b) 'x';"), ("x", "v"), txt(" z "))),
        "style": lambda: el("style", (("title", ATTR["t"]),), (), (txt(" a > b "),)),
        "textarea": lambda: el("textarea", (), (), (txt(" ta "), ("x", "v"))),
        "title": lambda: el("title", (), (), (txt("page"),)),
        "input": lambda: el("input", (("value", ATTR["t"]),), (), ()),
        "if": lambda: ("c", "if", "c", (), (txt(" cond "),)),
        "unless": lambda: el("u", (), (("unless", "c"),), (txt("not"),)),
        "for": lambda: ("c", "for", ("i", "w"), (), (txt(" item "), ("x", "i"))),
        "with": lambda: ("c", "with", (("v", "'q'"),), (), (txt("with "), ("x", "v"))),
        "def": lambda: ("c", "def", ("f", (("a", "v"),)), (), (txt(" in def "), ("x", "a"))),
        "call": lambda: ("x", "f()"),
        "block": lambda: ("c", "block", "k", (), (txt("in block\n"),)),
        "strip": lambda: el("s", (("title", ATTR["t"]),), (("strip", "c"),), (txt("stripped"),)),
        "content": lambda: el("s", (("title", ATTR["tx"]),), (("content", "v"),), (txt("never"),)),
        "replace": lambda: el("s", (("title", ATTR["tx"]),), (("replace", "v"),), (txt("never"),)),
        "attrs": lambda: el("s", (), (("attrs", "at"),), (txt("x"),)),
        "pi": lambda: ("pi", "q = 1"),
        "comment": lambda: ("raw", "<!-- c -->", "<!-- c -->"),
        "hidden": lambda: ("raw", "<!--! c -->", ""),
        "t": lambda: txt(TEXTS[int(b)]),
        "deep": lambda: el("d", (), (), (txt("1"), el("e", (("alt", ATTR["ws"]),), (), (txt(" 2 "), el("script", (), (), (txt("3"),)), txt("4"))), txt("\n5"))),
    }[a]()


DEEP = core.TIER == "thorough"
ITEMS = ["x", "b", "be", "br", "script", "style", "textarea", "title", "input", "if", "unless", "for", "with", "def", "call", "block", "strip", "content", "replace",
         "attrs", "pi", "comment", "hidden", "deep", "safe"] + ["t:%d" % i for i in range(len(TEXTS))]
SOME = ["x", "b", "script", "for", "if", "def", "call", "block", "strip", "comment", "pi", "t:0", "t:1", "t:2", "t:3", "t:4", "t:7", "content"]


def textlike(name):
    return name[:2] == "t:" or name == "hidden"


def ctxs():
    for c, w in ((True, [1, 2]), (False, [])):
        yield dict(v="<v>", n=None, c=c, w=w, at={"title": "at<"})


def with_gettext(ctx, mark, calls):
    """the context with its gettext; egettext is only for templates"""
    def gettext(s):
        calls.append(s)
        return mark(s)
    return dict(ctx, gettext=gettext)


MARKS = {
    "identity": lambda s: s,
    "mark": lambda s: "[<%s&>]" % s,
    "empty": lambda s: "",
    "space": lambda s: " %s " % s.upper(),
    "safe": lambda s: tk_markup("<t>%s</t>" % s),
}


def tk_markup(s):
    from markupsafe import Markup
    return Markup(s)


TAG = re.compile(r'<[^\s<>/]+((?: [^\s<>=]+(?:="[^"]*")?)*)( ?/?>)')


def normal(outcome):
    """translatable attributes can come after the others: the order of attributes is ignored"""
    def sub(m):
        attrs = re.findall(r' [^\s<>=]+(?:="[^"]*")?', m.group(1))
        return m.group(0)[:m.start(1) - m.start()] + "".join(sorted(attrs)) + m.group(2)
    return outcome[0], TAG.sub(sub, outcome[1])


def compare(nodes, marks, attrs=False, ctxs=ctxs):
    src = tk.source(nodes)
    plain = py.load1(src)
    t = py.load1(src, translatable=True)
    for ctx in ctxs():
        for m in marks:
            got_calls, want_calls = [], []
            got = py.render(t, with_gettext(ctx, MARKS[m], got_calls))
            want = tk.model_render({"t": nodes}, "t", with_gettext(ctx, MARKS[m], want_calls), translate=True)
            core.outcome(got)
            if attrs:
                got, want = normal(got), normal(want)
                got_calls.sort()
                want_calls.sort()
            if got != want or got_calls != want_calls:
                return "%s\nwith gettext %s and %r\n  gives    %r\n  expected %r\n  looks up %r\n  expected %r" % (src, m, ctx, got, want, got_calls, want_calls)
            if m == "identity":
                off = py.render(plain, ctx)
                if attrs:
                    off = normal(off)
                if off != got:
                    return "%s\n  without translation %r\n  with the identity   %r" % (src, off, got)
        # without any gettext in the context
        default = py.render(t, ctx)
        off = py.render(plain, ctx)
        if attrs:
            default, off = normal(default), normal(off)
        if default != off:
            return "%s\n  without translation %r\n  without gettext     %r" % (src, off, default)


def gen_children(n, items):
    def g(choose):
        rv = []
        for i in range(n):
            it = choose(items)
            if rv and textlike(it) and textlike(rv[-1]):
                raise core.Skip()          # one text, or on both sides of nothing
            if it == "call" and "def" not in rv or it in ("def", "block", "title") and it in rv:
                raise core.Skip()
            rv.append(it)
        return tuple(rv)
    return g


def run_children(case):
    return compare((el("p", (), (), [item(i) for i in case]),), ("identity", "mark"))


def gen_marks(choose):
    return choose(ITEMS), choose(sorted(MARKS)), choose(("p", "script", "textarea", "style"))


def run_marks(case):
    it, mark, tag = case
    if it == "call":
        it = "x"
    if tag != "p" and not (it[:2] == "t:" or it == "x"):
        tag = "p"
    return compare((el("h", (), (), (el(tag, (), (), [item(it)]), item("t:0"))),), (mark,))


def gen_attrs(choose):
    n = choose((1, 2))
    attrs = []
    names = TR_NAMES if n == 1 else ("title", "alt")
    # constants come first in the output
    first = choose((None,) + OTHER)
    kind1 = choose(sorted(ATTR)) if first else None
    if first and kind1 not in ("t", "ws", "none", "empty", "esc", "blank") and n > 1:
        raise core.Skip()
    if first:
        attrs.append((first, kind1))
    for i in range(n):
        attrs.append((choose(names), choose(sorted(ATTR))))
    if len({a for a, b in attrs}) < len(attrs):
        raise core.Skip()
    if DEEP or n == 1:
        return tuple(attrs), choose(("b", "br", "script", "input")), choose((0, 1, 2))
    return tuple(attrs), ("script" if first else choose(("b", "input"))), choose((0, 2)) if not first else 0


def run_attrs(case):
    attrs, tag, ctl = case
    kids = () if tag in tk.VOID else (txt("x "),)
    a = tuple((n, ATTR[k]) for n, k in attrs)
    c = {0: (), 1: (("attrs", "at"),), 2: (("strip", "c"),)}[ctl]
    return compare((el("h", (), (), (el(tag, a, c, kids),)),), ("identity", "mark"), True)


# inheritance, imports and nesting
def gen_files(choose):
    return choose(SOME), choose(SOME), choose(("ext", "imp", "extdef")), choose((0, 1))


def run_files(case):
    i1, i2, kind, nest = case
    k1 = [item(i1 if i1 != "call" else "x")]
    k2 = [item(i2 if i2 not in ("call",) else "x")]
    if "block" in (i1, i2) or i1 == i2 == "def":
        return None
    if nest:
        k2 = [el("n", (("title", ATTR["t"]),), (), k2)]
    if kind == "imp":
        ts = {"l": (el("l", (), (), (("c", "def", ("g", None), (), tuple(k1)),)),), "t": (el("p", (), (), [("imp", "l", "m"), ("x", "m.g()")] + k2),)}
    else:
        d = ("c", "block", "g", (), tuple(k2)) if kind == "ext" else ("c", "def", ("g", None), (), tuple(k2))
        ts = {"l": (el("l", (), (), [("c", "block", "g", (), (txt("old"),)), ("c", "block", "h", (), tuple(k1))]),), "t": (("ext", "l", (txt("\n"), d, txt(" "))),)}
    t = py.load_templates(ts, translatable=True)("t")
    for ctx in ctxs():
        for m in ("identity", "mark"):
            gc, wc = [], []
            got = py.render(t, with_gettext(ctx, MARKS[m], gc))
            want = tk.model_render(ts, "t", with_gettext(ctx, MARKS[m], wc), translate=True)
            core.outcome(got)
            if got != want or gc != wc:
                return "%r\n  gives    %r %r\n  expected %r %r" % ({k: tk.source(v) for k, v in ts.items()}, got, gc, want, wc)


# text mixed with expressions: every sequence of pieces
PIECES = ["a", " ", "\n", "x", "v", "<", "$"]


def gen_mixed(n):
    def g(choose):
        return tuple(choose(PIECES) for _ in range(choose(range(1, n + 1)))), choose(("text", "attr", "script", "strip"))
    return g


def run_mixed(case):
    pieces, where = case
    parts = []
    for p in pieces:
        if p == "v":
            parts.append(("x", "v"))
        elif parts and parts[-1][0] == "t":
            parts[-1] = txt(parts[-1][1] + p)
        else:
            parts.append(txt(p))
    if where == "attr":
        nodes = (el("p", (("title", tuple(parts)),), (), ()),)
    elif where == "strip":
        nodes = (el("p", (), (), (el("q", (), (("strip", "c"),), parts),)),)
    else:
        nodes = (el("p" if where == "text" else "script", (), (), parts),)
    return compare(nodes, ("identity", "mark"))


# ------------------------------------------------ every element and attribute
def run_elements(case):
    if case[0] in ("script", "style"):
        return None
    return compare(names.tag_nodes(case), ("identity", "mark"), True, lambda: names.contexts(("<v>",)))


def run_names(case):
    return compare(names.attr_nodes(case), ("identity", "mark"), True, lambda: names.contexts(("<v>",))[:1])


# ------------------------------------------------ how much there is
SIZED = tuple("children static expressions parts attributes overridden_attributes characters words spaces messages depth depth_strip loop element_for ifs strips contents defs blocks comment name_tag".split())


def run_size(case):
    ts, ctx = sizes.case(*case)
    r = compare(ts["t"], ("identity", "mark"), True, lambda: [ctx])
    return r and r[:600] + " ... " + r[-600:]


def suites(tier):
    deep = tier == "thorough"
    return [
        core.Suite("children", gen_children(2, ITEMS), run_children, "all pairs of children"),
        core.Suite("triples", gen_children(3, ITEMS if deep else SOME), run_children, "all triples of children"),
        core.Suite("marks", gen_marks, run_marks, "every kind of translation"),
        core.Suite("attributes", gen_attrs, run_attrs, "attributes"),
        core.Suite("elements", names.gen_tags(), run_elements, "every HTML element with every construct"),
        core.Suite("names", names.gen_attrs(ctls=("", "given", "if"), tags=("p", "input", "img")), run_names, "every HTML attribute, on three elements"),
        core.Suite("files", gen_files, run_files, "inheritance and imports"),
        core.Suite("size", sizes.gen(SIZED, deep), run_size, "%d kinds of templates of up to %d parts" % (len(SIZED), 1025 if deep else 257)),
        core.Suite("mixed", gen_mixed(5 if deep else 4), run_mixed, "sequences of text pieces and expressions"),
    ] + ([core.Suite("quads", gen_children(4, SOME[:12]), run_children, "four children")] if deep else [])
