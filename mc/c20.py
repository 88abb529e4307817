"""C20: JavaScript templates render as their constructs mean."""
import itertools
import json

from mc import core, js, names, sizes, tk
from mc.c01 import el

U = tk.UNDEFINED


class Obj(object):
    """other values: how they are written, and what they are as text"""

    def __init__(self, src, text, html=None):
        self.js = src
        self._text = text
        if html is not None:
            self.__html__ = lambda: html

    def __str__(self):
        return self._text


VALUES = [
    None, U, True, False, 0, 1, -1, 1.5, float("nan"), float("inf"), "", "x", "<&\"'>", "\"", "a\"b", "'", "a'", "<", "a>", "&", "0", "$a", "&amp;", "\n", "é\u2028\U0001f600", tk.Frag("<b>'&amp;"), tk.Frag(""), [], [1, [2, None, "<"]], {}, {"k": "<"},
    Obj("new Date(0).getTime()", "0"), Obj("({toString: function () { return '<t>'; }})", "<t>"), Obj("({html: function () { return '<h>'; }})", "[object Object]", "<h>"), Obj("/[<]/", "/[<]/"), Obj("new String('<s>')", "<s>"), Obj("literal(literal('<l>'))", "<l>", "<l>"),
    Obj("literal(null)", "null", "null"), Obj("literal(false)", "false", "false"), Obj("[literal('<')]", "<"), Obj("new Error('<e>')", "Error: <e>"),
]
OBJ0 = next(v for v in VALUES if isinstance(v, Obj) and "Date(0)" in v.js)        # a number, which is false
POS = {
    "text": lambda: [("x", "v")],
    "texts": lambda: [("t", "("), ("x", "v"), ("t", ")"), ("x", "v"), ("n", "v"), ("t", "<")],
    "attr": lambda: [el("p", (("k", (("x", "v"),)),), (), ())],
    "attrn": lambda: [el("br", (("a", None), ("k", (("n", "v"),)), ("z", (("t", "1"),))), (), ())],
    "mixed": lambda: [el("p", (("k", (("t", "<"), ("x", "v"), ("t", "\""))),), (), ())],
    "mixed2": lambda: [el("p", (("k", (("x", "v"), ("x", "v"))),), (), ())],
    "content": lambda: [el("p", (), (("content", "v"),), (("t", "no"),))],
    "replace": lambda: [el("p", (), (("replace", "v"),), (("t", "no"),))],
    "creplace": lambda: [("c", "replace", "v", (), ())],
    "if": lambda: [el("p", (), (("if", "v"),), (("t", "yes"),))],
    "cif": lambda: [("c", "if", "v", (), (("t", "yes"),))],
    "unless": lambda: [el("p", (), (("unless", "v"),), (("t", "yes"),))],
    "cunless": lambda: [("c", "unless", "v", (), (("t", "yes"),))],
    "strip": lambda: [el("p", (), (("strip", "v"),), (("t", "in"),))],
    "attrs": lambda: [el("p", (), (("attrs", "[['k', v], ['l', 1]]"),), ())],
    "with": lambda: [("c", "with", (("w", "v"),), (), (("x", "w"),))],
    "for": lambda: [("c", "for", ("i", "[v, v]"), (), (("x", "i"),))],
    "arg": lambda: [("c", "def", ("f", (("a", None), ("b", None))), (), (("x", "a"), ("t", ","), ("x", "b"))), ("x", "f(v)"), ("x", "f(1, v)")],
    "capture": lambda: [("c", "def", ("f", None), (), (("x", "v"),)), ("x", "f()"), ("x", "f()")],
    "literal": lambda: [("x", "literal(v)")],
    "literal-attr": lambda: [el("p", (("k", (("x", "literal(v)"),)),), (("content", "literal(v)"),), ())],
    "script": lambda: [el("script", (), (), (("t", "if (a < b && c) "), ("x", "v")))],
    "result": lambda: [("c", "def", ("f", None), (), (("x", "v"),)), el("p", (("k", (("x", "f()"),)), ("l", (("t", "-"), ("x", "f()")))), (), (("x", "[f()]"),))],
}
LISTY = ["attrs", "for"]


def js_truth_patch(v):
    return v


def gen_values(choose):
    return choose(sorted(POS)), choose(len(VALUES))


def model_value(v):
    return 0 if v is OBJ0 else v


def run_values(case):
    pos, i = case
    nodes = (el("r", (), (), POS[pos]()),)
    ctx = {"v": VALUES[i]}
    code = compiled(nodes)
    got = js.execute({"t": code}, [("t", js.source_of(ctx), {})])
    want = js.model_render({"t": nodes}, "t", {"v": model_value(VALUES[i])})
    core.outcome(got[0][:2])
    if js.short(got[0]) != want or len(got) > 1:
        return "%s\nwith %s\n  gives    %r\n  expected %r" % (tk.source(nodes, "js"), js.source_of(ctx), got, want)


_compiled = {}


def compiled(nodes):
    rv = _compiled.get(nodes)
    if rv is None:
        rv = _compiled[nodes] = js.compile1(tk.source(nodes, "js"))
    return rv


# ------------------------------------------------- expressions mean what they mean by themselves
ATOMS = ["a", "b", "1", "'<'", "c.d", "f(a)", "l[0]", "null", "(a)", "[a, b]", "undefined", "n", "true"]
UNARY = ["!", "-", "typeof "]
BINARY = [" + ", " - ", " * ", " == ", " === ", " != ", " < ", " > ", " && ", " || ", ", ", " % "]
EPOS = {
    "text": ("<r>${%s}</r>", "text"), "attr": ('<r k="${%s}"></r>', "attr"), "mixed": ('<r k="x${%s}"></r>', "mixed"), "script": ("<r><script>${%s}</script></r>", "script"),
    "if": ('<r><p js:if="%s"></p></r>', "if"), "cif": ('<r><js:if test="%s">y</js:if></r>', "cif"), "unless": ('<r><p js:unless="%s"></p></r>', "unless"), "cunless": ('<r><js:unless test="%s">y</js:unless></r>', "cunless"), "strip": ('<r><p js:strip="%s">s</p></r>', "strip"),
    "content": ('<r js:content="%s">no</r>', "text"), "replace": ('<r><p js:replace="%s">no</p></r>', "text"), "creplace": ('<r><js:replace value="%s"/></r>', "text"),
    "with": ('<r><p js:with="w=(%s)" js:strip="">$w</p></r>', "text"), "for": ('<r><js:for each="w in [(%s)]">$w</js:for></r>', "text"), "attrs": ('<r js:attrs="[[\'k\', (%s)]]"></r>', "attr"), "arg": ('<r><js:def function="g(w)">$w</js:def>${g((%s))}</r>', "text"),
}
# bare, without the parentheses
BARE = {"with": ('<r><p js:with="w=%s" js:strip="">$w</p></r>', "text"), "for": ('<r><js:for each="w in [%s]">$w</js:for></r>', "text"), "arg": ('<r><js:def function="g(w)">$w</js:def>${g(%s)}</r>', "text")}
A = [0, 1, "x", "", None, True, [], "<"]


def expected(kind, v):
    """output for the result of evaluating the expression"""
    if v[0] != "ok":
        return ("err",)
    s, k, t, h = v[1], v[2], v[3], v[4]
    e = s if h else tk.escape(s)
    rv = {
        "text": "<r>%s</r>" % e, "mixed": '<r k="x%s"></r>' % e, "script": "<r><script>%s</script></r>" % e,
        "attr": "<r></r>" if k == "nothing" or k == "boolean" and not t else '<r k="k"></r>' if k == "boolean" else '<r k="%s"></r>' % e,
        "if": "<r>%s</r>" % ("<p></p>" if t else ""), "cif": "<r>%s</r>" % ("y" if t else ""), "unless": "<r>%s</r>" % ("" if t else "<p></p>"), "cunless": "<r>%s</r>" % ("" if t else "y"),
        "strip": "<r>%s</r>" % ("s" if t else "<p>s</p>"),
    }[kind]
    return "ok", rv


def gen_expr(size, positions, more=True, atoms=ATOMS, binary=BINARY):
    def expr(choose, n):
        if n == 1:
            return choose(atoms)
        form = choose(("binary", "unary", "cond", "paren", "call") if more else ("binary", "unary", "paren"))
        if form == "unary":
            return choose(UNARY) + expr(choose, n - 1)
        if form == "paren":
            return "(" + expr(choose, n - 1) + ")"
        if form == "call":
            return choose(("f(%s)", "(function (a) { return %s; })(2)", "l[%s]", "{k: %s}.k", "[%s][0]")) % expr(choose, n - 1)
        if form == "cond":
            if n < 3:
                raise core.Skip()
            k = choose(n - 2) + 1
            return expr(choose, k) + " ? " + expr(choose, n - k) + " : b"
        if n < 2:
            raise core.Skip()
        k = choose(n - 1) + 1
        return expr(choose, k) + choose(binary) + expr(choose, n - k)

    def g(choose):
        e = expr(choose, choose(size))
        if e.startswith("{") or "- -" in e or "--" in e or "- (-" in e:
            raise core.Skip()            # these are not expressions there, or broken by slimit
        return e, choose(positions)
    return g


CTXS = ["{a: %s, b: %s, c: {d: '<d>'}, f: function (x) { return x; }, l: ['<l>'], n: 3}" % (js.source_of(x), js.source_of(y)) for x, y in
        ((0, 1), (1, 0), (1, 1), ("x", None), ("", "<"), (None, U), (True, False), ([], tk.Frag("<m>")))]


def run_expr(case):
    e, pos = case
    pattern, kind = EPOS.get(pos) or BARE[pos[4:]]
    src = pattern.replace("%s", e if pos == "script" else tk.esc_attr(e))
    code = js.compile1(src)
    got = js.execute({"t": code}, [("t", c, {}) for c in CTXS])
    values = js.execute({}, [(e, c, {"how": "eval"}) for c in CTXS])
    if len(got) > len(CTXS):
        return "%s: global variables appeared: %r" % (src, got[-1])
    for c, g, v in zip(CTXS, got, values):
        want = expected(kind, v)
        core.outcome(g[:2])
        if js.short(g) != want:
            return "%s\nwith %s\n  gives    %r\n  expected %r" % (src, c, g, want)


# ----------------------------------------------------------------- nesting of constructs
CONS = {
    "el": lambda k, d: [el("p", (("q", (("t", "."), ("x", "a"))),), (), k)],
    "if": lambda k, d: [el("b", (), (("if", "a"),), k)],
    "cif": lambda k, d: [("c", "if", "a", (), k)],
    "unless": lambda k, d: [("c", "unless", "b", (), k)],
    "for": lambda k, d: [("c", "for", ("i", "l"), (), (("x", "i"),) + tuple(k))],
    "for_el": lambda k, d: [el("i", (("k", (("x", "i"),)),), (("for", ("i", "l")),), k)],
    "def": lambda k, d: [("c", "def", ("f%d" % d, (("a", None),)), (), k), ("x", "f%d('A')" % d), ("x", "f%d(0)" % d)],
    "def_el": lambda k, d: [el("i", (), (("def", ("f%d" % d, None)),), k), ("x", "f%d()" % d)],
    "with": lambda k, d: [("c", "with", (("a", "'w%d'" % d), ("b", "a")), (), k)],
    "with_el": lambda k, d: [el("i", (("k", (("x", "a"),)),), (("with", (("a", "0"),)),), k)],
    "strip": lambda k, d: [el("s", (("k", (("x", "b"),)),), (("strip", "a"),), k)],
    "all": lambda k, d: [el("u", (("k", (("x", "i"),)),), (("if", "a"), ("for", ("i", "l")), ("with", (("b", "i"),)), ("strip", "b")), k)],
    "block": lambda k, d: [("c", "block", "k%d" % d, (), k)],
    "attrs": lambda k, d: [el("p", (("q", (("x", "b"),)),), (("attrs", "[['r', a], ['s', true]]"),), k)],
}
LEAVES = {
    "a": [("x", "a")], "content": [el("p", (("k", (("x", "a"),)),), (("content", "a"),), ())], "replace": [el("p", (), (("replace", "b"), ), ())], "text": [("t", "\"<\\\n'$")], "none": [], "ab": [("x", "a"), ("t", "&"), ("n", "b"), ("x", "i")],
    "if-replace": [el("p", (), (("if", "a"), ("replace", "b")), ())], "for-content": [el("p", (), (("for", ("i", "l")), ("content", "i")), ())],
}
NCTX = [dict(a=1, b="<b>", l=["x", None]), dict(a="", b=tk.Frag("<m>"), l=[0]), dict(a=U, b=None, l=[]), dict(b=False, l=["<", "y"])]


def gen_nest(n, leaves):
    def g(choose):
        return tuple(choose(sorted(CONS)) for _ in range(n)), choose(leaves)
    return g


def nest(path, leaf):
    nodes = list(leaf)
    for d in reversed(range(len(path))):
        nodes = CONS[path[d]](tuple(nodes), d) + [("t", "/")]
    return (el("html", (), (), nodes),)


def run_nest(case):
    path, leaf = case
    return js.compare({"t": nest(path, LEAVES[leaf])}, "t", NCTX)


# ----------------------------------------------------------------------- scoping
SCOPE = {
    "with_a": lambda k, d: [("c", "with", (("a", "'w%d'" % d),), (), k)],
    "with_self": lambda k, d: [("c", "with", (("a", ("S(a) + '!'", "a + '!'")),), (), k)],
    "with_swap": lambda k, d: [el("i", (("t", (("x", "a"),)),), (("with", (("x", "a"), ("a", "b"), ("b", "x"))),), k)],
    "for_a": lambda k, d: [("c", "for", ("a", "['%d', b]" % d), (), k)],
    "for_b": lambda k, d: [el("i", (("t", (("x", "b"),)),), (("for", ("b", "[a]")),), k)],
    "def_a": lambda k, d: [("c", "def", ("f%d" % d, (("a", None),)), (), k), ("x", "f%d('A')" % d), ("x", "f%d(b)" % d)],
    "def_ba": lambda k, d: [("c", "def", ("f%d" % d, (("b", None), ("a", None))), (), k), ("x", "f%d('B')" % d)],
    "def": lambda k, d: [el("i", (), (("def", ("f%d" % d, None)),), k), ("x", "f%d()" % d)],
    "def_named_a": lambda k, d: [("c", "with", (("z", "1"),), (), (("c", "def", ("a", (("b", None),)), (), (("c", "with", (("a", ("'F'", "typeof a === 'function' ? 'F' : a")),), (), k),)), ("x", "a()"), ("x", "a('B')")))],
    "block": lambda k, d: [("c", "block", "bl%d" % d, (), k)],
    "if": lambda k, d: [("c", "if", "a", (), k)],
    "var_a": lambda k, d: [("c", "with", (("z", "1"),), (), (("pi", ("a = 'p%d'" % d, "var a = 'p%d';" % d)),) + tuple(k))],
    "el": lambda k, d: [el("p", (("q", (("t", "."), ("x", "b"))),), (), k)],
}
USES = ["a", "b", ("(lambda a: S(a) + S(b))('l')", "(function (a) { return '' + a + b; })('l')"), ("[b for a in 'x'][0]", "(function () { var a = 'z'; return b; })()"), ("S(a) + S(b)", "'' + a + b"), ("{'k': a}['k']", "[{a: a}][0].a")]
SCTX = [dict(a="ca", b="cb"), dict(a="ca"), dict(b="cb", a=""), {}]


def gen_scope(n, uses, around):
    def g(choose):
        return tuple(choose(sorted(SCOPE)) for _ in range(n)), choose(len(uses)), choose(around)
    return g


def run_scope(case):
    path, leaf, (before, after) = case
    nodes = [("x", USES[leaf])]
    for d in reversed(range(len(path))):
        nodes = SCOPE[path[d]](tuple(nodes), d)
        if before is not None:
            nodes = [("x", before)] + nodes
        if after is not None:
            nodes = nodes + [("t", ";"), ("x", after)]
    nodes = (el("html", (), (), nodes),)
    return js.compare({"t": nodes}, "t", SCTX)


# ----------------------------------------------------------------------- static text
CHARS = ["a", "\"", "'", "\\", "\n", "\r", "\t", "<", ">", "&", "$", "{", "}", "\u2028", "\u2029", "é", "\U0001f600", "/", "*/", "//", "</script>", "\x00", "\x7f", "\\u0041", " "]


def gen_text(n):
    def g(choose):
        return choose(("text", "attr", "script", "comment", "content")), "".join(choose(CHARS) for _ in range(1 + choose(n)))
    return g


def run_text(case):
    where, s = case
    if where == "text":
        nodes = (el("r", (), (), (("t", s),)),)
    elif where == "attr":
        nodes = (el("r", (("k", (("t", s),)),), (), ()),)
    elif where == "content":
        nodes = (el("r", (), (), (("c", "if", "1", (), (("t", s),)), ("x", "1"), ("t", s))),)
    elif where == "script":
        if "</" in s or "&" in s:
            return None
        nodes = (el("r", (), (), (el("script", (), (), (("t", s),)),)),)
    else:
        if "-" in s or ">" in s or "\x00" in s:
            return None
        nodes = (el("r", (), (), (("raw", "<!--%s-->" % s, "<!--%s-->" % s),)),)
    if "\x00" in s or "\r" in s:
        # not in HTML source
        return None
    return js.compare({"t": nodes}, "t", [{}])


# ----------------------------------------------------------------------- state
STATE = [
    nest(("with", "for", "def"), LEAVES["ab"]),
    (el("html", (), (), (("c", "with", (("a", "2"),), (), (("x", "a"),)), ("x", "a"), ("x", "i"), ("c", "for", ("i", "l"), (), (("x", "i"),)), ("c", "block", "k", (), (("x", "b"),)), ("c", "def", ("f", (("a", None),)), (), (("x", "a"),)), ("x", "f(b)"))),),
    (el("html", (), (), (("c", "block", "k", (), (("t", "other"), ("x", "a"))), ("c", "def", ("f", (("b", None),)), (), (("x", "b"), ("x", "a"))), ("x", "f(l)"))),),
]
HOWS = [("t0", "render"), ("t1", "render"), ("t2", "render"), ("t0", "twice"), ("t1", "twice"), ("t1", "toString"), ("t2", "html"), ("t1", "keys"), ("t2", "keys")]


def gen_state(n):
    def g(choose):
        return tuple((choose(len(HOWS)), choose(("", "x", "y")), choose(2)) for _ in range(n))
    return g


def run_state(ops):
    codes = {"t%d" % i: compiled(n) for i, n in enumerate(STATE)}
    ctxs = [dict(a="<a>", b=tk.Frag("<b>"), l=[1, 2]), dict(a=0, b="&", l=["x"])]
    objs = {}
    calls, want = [], []
    for how, same, c in ops:
        name, method = HOWS[how]
        ctx = ctxs[c]
        if same:
            ctx = objs.setdefault(same, ctx)
        calls.append((name, js.source_of(ctx), dict(how=method, same=same) if same else dict(how=method)))
        if method == "keys":
            want.append(("ok", ",".join(sorted(ctx))))
            continue
        out = js.model_render({name: STATE[int(name[1])]}, name, ctx)[1]
        want.append(("ok", out + "|" + out if method == "twice" else out))
    got = js.execute(codes, calls)
    core.outcome(tuple(got))
    if got != want:
        return "%r\n%r\n  gives    %r\n  expected %r" % ({k: tk.source(v, "js") for k, v in zip(codes, STATE)}, calls, got, want)


# ----------------------------------------------------------------------- bound templates
BOUND = [
    nest(("for", "def", "if"), LEAVES["ab"]), nest(("block", "for_el"), LEAVES["content"]), nest(("with", "attrs", "for"), LEAVES["ab"]),
    (el("html", (), (), (("c", "def", ("f", None), (), (("x", "l"), ("x", "a"))), ("c", "block", "k", (), (("x", "l"),)), ("x", "f()"), el("p", (("k", (("x", "l"),)), ("m", (("t", "-"), ("x", "l")))), (("attrs", "[['n', l]]"),), ()))),),
]
BOPS = ["render A", "toString A", "html A", "render B", "render C", "change A", "change C", "rebind A", "again A",
        "appendTo A", "prependTo A", "insertAfter B", "insertBefore C", "embed A", "embed C"]
EMBED = (el("p", (("k", (("x", "q"),)), ("m", (("t", "-"), ("x", "q")))), (), (("x", "q"), ("t", "/"), ("x", "q"))),)


def gen_bound(n):
    def g(choose):
        return choose(len(BOUND)), choose(len(BOUND)), tuple(choose(BOPS) for _ in range(n)) + ("render A", "render C")
    return g


def run_bound(case):
    """A and B render one template with different values, C renders another one"""
    t1, t2, ops = case
    codes = {"t1": compiled(BOUND[t1]), "t2": compiled(BOUND[t2]), "embed": compiled(EMBED)}
    tmpl = {"A": "t1", "B": "t1", "C": "t2"}
    ctx = {"A": dict(a="<a>", b=1, l=[1]), "B": dict(a=0, b="&", l=["x", "y"]), "C": dict(a=True, l=[])}
    todo = [["bind", h, tmpl[h], js.source_of(ctx[h])] for h in sorted(ctx)]
    want = []
    for i, op in enumerate(ops):
        how, h = op.split()
        if how == "change":
            ctx[h]["l"].append("+%d" % i)
            todo.append([how, h, "ctx.l.push('+%d');" % i])
        elif how == "rebind":
            ctx[h]["a"] = "re%d" % i
            todo.append(["change", h, "ctx.a = 're%d';" % i])
            todo.append(["bind", h, tmpl[h], None])
        elif how == "again":
            todo.append(["bind", h, tmpl[h], None])
        else:
            nodes = BOUND[t1] if tmpl[h] == "t1" else BOUND[t2]
            w = js.model_render({"t": nodes}, "t", ctx[h])
            if how == "embed":
                # a template in another one
                w = js.model_render({"t": EMBED}, "t", {"q": tk.Frag(w[1])})
            elif how not in ("render", "toString", "html"):
                # through jQuery
                args = ["#x", i][:i % 3]
                w = w[0], "%s(%s) %s" % (how, ",".join(map(str, args)), w[1])
            want.append(w)
            todo.append([how, h, "embed" if how == "embed" else args if w[1].startswith(how) else None])
    got = js.execute(codes, [("", "", dict(how="ops", ops=todo))])
    if any(w[0] != "ok" for w in want):
        return "the model fails: %r" % (case,)
    want = [("ok", "|".join(w[1] for w in want))]
    core.outcome(got[0][1])
    if got != want:
        return "%r\n%r\n  gives    %r\n  expected %r" % ([tk.source(BOUND[i], "js") for i in (t1, t2)], todo, got, want)


# ----------------------------------------------------------------------- names
NAMES = "a A x1 _ _x __x __x__ __ __tk __TK TK e i s k fn l list map name length key value values escape unescape html buffer attr attrs render join load output rv context ctx templateContext globals Markup Buffer BoundTemplate gettext egettext " \
    "valueOf toString hasOwnProperty constructor isPrototypeOf toLocaleString Array Math Object String NaN Infinity JSON Date global window self document require define module exports top status self async get set of each test vars href alias function_ \u00e9 \u00fcn\u00ef \u0394".split()
NVALUES = {"text": "'<v>'", "undefined": "undefined", "null": "null", "zero": "0", "no": None}
ROLES = {
    "value": "<r>${N}</r>", "attr": '<r k="${N}"></r>', "mixed": '<r k="-${N}"></r>', "defvalue": '<r><js:def function="f_()">${N}</js:def>${f_()}</r>', "blockvalue": '<r><js:block name="b_">${N}</js:block></r>',
    "def": '<r><js:def function="N(a_)">[${a_}]</js:def>${N(1)}</r>', "def0": '<r><p js:def="N">[]</p>${N()}</r>', "nested": '<r><js:for each="i_ in [1]"><js:def function="N(a_)">[${a_}]</js:def>${N(i_)}</js:for>${N}</r>', "with": '<r><js:with vars="N = 1">[${N}]</js:with>${N}</r>', "for": '<r><js:for each="N in [1]">[${N}]</js:for>${N}</r>',
    "arg": '<r><js:def function="f_(N)">[${N}]</js:def>${f_(1)}${N}</r>', "block": '<r><js:block name="N">[1]</js:block></r>', "blockcall": '<r><js:block name="N">[1]</js:block>${N()}</r>', "lambda": "<r>${(function (N) { return '[' + N + ']'; })(1)}${N}</r>", "property": "<r>${({N: '[1]'}).N}${N}</r>", "index": "<r>${({'N': '[1]'})['N']}</r>",
    "alone": "<r>${typeof N}</r>",
}
SETS = ("def", "def0", "block", "blockcall")


def gen_names(choose):
    return choose(sorted(ROLES)), choose(NAMES), choose(sorted(NVALUES))


def run_names(case):
    role, n, value = case
    if role in SETS and value != "no":
        return None                      # a value masks a def of the same name
    src = ROLES[role].replace("N", n)
    code = js.compile1(src)
    v = NVALUES[value]
    got = js.execute({"t": code}, [("t", "{%s}" % ("" if v is None else "%s: %s" % (n, v)), {})])
    if v is None:
        # then it is a global variable, or undefined
        v = "(typeof %s === 'undefined' ? undefined : %s)" % (n, n) if n != "require" else "undefined"
    v = js.execute({}, [("[typeof v, String(v)].join(':')", "{v: (new Function('return ' + %s))()}" % json.dumps(v), {"how": "eval"})])[0][1]
    t, s = v.split(":", 1)
    e = tk.escape(s)
    nothing = s in ("null", "undefined") and t != "string"
    want = {
        "value": e, "defvalue": e, "blockvalue": e, "attr": None, "mixed": None, "def": "[1]", "def0": {0: "<p>[]</p>"}[0], "nested": "[1]" + e, "with": "[1]" + e, "for": "[1]" + e, "arg": "[1]" + e, "block": "[1]", "blockcall": "[1][1]",
        "lambda": "[1]" + e, "property": "[1]" + e, "index": "[1]", "alone": t,
    }[role]
    if role == "attr":
        want = "<r></r>" if nothing else '<r k="%s"></r>' % e
    elif role == "mixed":
        want = '<r k="-%s"></r>' % e
    else:
        want = "<r>%s</r>" % want
    core.outcome(got[0][:2])
    if got != [("ok", want)]:
        return "%s\nwith %s = %s\n  gives    %r\n  expected %r" % (src, n, NVALUES[value], got, want)


# ----------------------------------------------------------------------- finished values
MADE = {
    "text": (("t", "<"),), "expr": (("x", "a"),), "both": (("t", "("), ("x", "a"), ("t", ")")), "none": (), "inner": (("c", "for", ("i", "l"), (), (("x", "i"),)),), "other": (("x", "e()"),), "other2": (("x", "e()"), ("t", "!")), "el": (el("i", (("k", (("x", "a"),)),), (), ()),),
}
FUSES = {
    "y": [("x", "y")], "g": [("x", "g(y)")], "gg": [("x", "g(g(y))")], "h": [("x", "h(y)")], "attr": [el("p", (("k", (("x", "y"),)),), (), ())], "mixed": [el("p", (("k", (("t", "-"), ("x", "y"))),), (), ())], "list": [("x", "[y, y]")], "text": [("x", ("S(y)", "'' + y"))],
    "content": [el("p", (), (("content", "y"),), ())], "attrs": [el("p", (), (("attrs", "[['k', y]]"),), ())], "with": [("c", "with", (("z", "g(y)"),), (), (("x", "z"), ("x", "y"), ("x", "z")))], "for": [("c", "for", ("z", "[y, g(y)]"), (), (("x", "z"), ("x", "y")))],
    "nest": [("c", "def", ("n_", None), (), (("x", "y"), ("t", "n"))), ("x", "n_()")], "k": [("x", "k()")],
}


def gen_finished(n):
    def g(choose):
        return choose(sorted(MADE)), tuple(choose(sorted(FUSES)) for _ in range(n))
    return g


def run_finished(case):
    made, uses = case
    inner = []
    for u in uses:
        inner += FUSES[u] + [("t", ";")]
    nodes = (el("html", (), (), (
        ("c", "def", ("e", None), (), (("t", "e"), ("x", "a"))), ("c", "def", ("f", None), (), MADE[made]), ("c", "def", ("g", (("x", None),)), (), (("x", "x"), ("t", "g"))), ("c", "def", ("h", (("x", None),)), (), (("x", "g(x)"), ("x", "x"), ("x", "g(x)"))),
        ("c", "block", "k", (), MADE[made]), ("c", "with", (("y", "f()"),), (), tuple(inner)), ("c", "with", (("y", "k()"),), (), tuple(inner)))),)
    return js.compare({"t": nodes}, "t", [dict(a="<&", l=["x", "<"]), dict(a=0, l=[])])


# ----------------------------------------------------------------------- sizes
SIZES = [0, 1, 2, 3, 5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097, 10000, 32768, 65535, 65536, 65537, 100000, 131072, 200001]
SFORMS = {
    "main": ('<r><js:for each="i in l">${i}</js:for></r>', lambda x, n: "<r>%s</r>" % ("&lt;" * n)),
    "def": ('<r><js:def function="f()"><js:for each="i in l">${i}</js:for></js:def>${f()}/${f()}</r>', lambda x, n: "<r>%s/%s</r>" % ("&lt;" * n, "&lt;" * n)),
    "block": ('<r><js:block name="b">a<js:for each="i in l">${i}</js:for>z</js:block></r>', lambda x, n: "<r>a%sz</r>" % ("&lt;" * n)),
    "outer": ('<r><js:def function="g()"><js:for each="i in l">${i}</js:for></js:def><js:def function="f()">${g()}</js:def>(${f()})</r>', lambda x, n: "<r>(%s)</r>" % ("&lt;" * n)),
    "attr": ('<r><js:def function="f()"><js:for each="i in l">${i}</js:for></js:def><p k="${f()}" m="-${f()}"></p></r>', lambda x, n: '<r><p k="%s" m="-%s"></p></r>' % ("&lt;" * n, "&lt;" * n)),
    "text": ('<r k="${l.join(\'\')}">${l.join("")}</r>', lambda x, n: '<r k="%s">%s</r>' % ("&lt;" * n, "&lt;" * n)),
    "attrs": ('<r js:attrs="l.map(function (x, i) { return [\'a\' + i, x]; })"></r>', lambda x, n: "<r%s></r>" % "".join(' a%d="&lt;"' % i for i in range(n))),
    "index": ('<r><js:for each="x, i in l"><js:if test="i + 1 === l.length">${i}</js:if></js:for></r>', lambda x, n: "<r>%s</r>" % (n - 1 if n else "")),
}


def gen_sizes(choose):
    return choose(sorted(SFORMS)), choose(SIZES)


def run_sizes(case):
    form, n = case
    src, f = SFORMS[form]
    code = js.compile1(src)
    got = js.execute({"t": code}, [("t", "{l: Array.from({length: %d}, function () { return '<'; })}" % n, {})])
    want = f("<", n)
    core.outcome((form, n))
    if got != [("ok", want)]:
        return "%s with %d items: %s" % (src, n, str(got)[:300])


def gen_depth(choose):
    return choose(("def", "nested")), choose((0, 1, 2, 3, 10, 50, 200, 500))


def run_depth(case):
    """recursive defs"""
    form, n = case
    src = {
        "def": '<r><js:def function="f(n)">${n}<js:if test="n">(${f(n - 1)})</js:if></js:def>${f(n)}</r>',
        "nested": '<r><js:for each="x in [n]"><js:def function="f(n)"><b><js:with vars="m = n - 1"><js:if test="n">${f(m)}</js:if>$m</js:with></b></js:def>${f(x)}</js:for></r>',
    }[form]
    got = js.execute({"t": js.compile1(src)}, [("t", "{n: %d}" % n, {})])
    if form == "def":
        want = "<r>%s%s</r>" % ("(".join(str(i) for i in range(n, -1, -1)), ")" * n)
    else:
        want = "<r>%s%s</r>" % ("<b>" * (n + 1), "".join("%d</b>" % (i - 1) for i in range(n + 1)))
    core.outcome(case)
    if got != [("ok", want)]:
        return "%s with %d: %s\n  expected %s" % (src, n, str(got)[:300], want[:300])


LITERALS = ["''", '""', "'0'", "'false'", "' '", "0", "0.0", ".0", "0x0", "1e3", "0.1", "00", "-0", "-1", "+1", "1.", "null", "undefined", "true", "false", "NaN", "Infinity", "[]", "{}", "({})", "[0]", "[[]]", "(0)", "('')", "/x/", "/</g", "!0", "!1", "!''", "''+''", "0+0", "1-1", "0||''", "1&&0", "void 0", "typeof 0", "'\\''", "'\\n'", "'\\u003c'", '"\\x3c"',
            "new Date(NaN)", "!function () {}", "typeof (function () {})", "this === undefined", "0 ? 1 : ''", "(1, 0)", "l.length", "c['d']", "f('<')", "'a' in c", "l instanceof Array", "new Array(2)", "Math.max(1, 2)", "String(a)", "'\u2028'", "'\\\\'"]


def gen_literals(choose):
    e = choose(LITERALS)
    pos = choose(sorted(EPOS) + ["bare" + k for k in sorted(BARE)])
    if e == "{}" or e.startswith("function") and pos == "text" or e == "(1, 0)" and pos in ("barearg",):
        raise core.Skip()
    if e.startswith("this"):
        raise core.Skip()
    return e, pos


# ------------------------------------------------- white space within arguments
TOKENS = [("for", "a in l"), ("for", "a in [ 1 , 2 ]"), ("for", "a in l || [ 7 ]"), ("with", "q = a"), ("with", "q = ( a , b )"), ("with", "q = a ; z = q + 1"),
          ("def", "g"), ("def", "g ( )"), ("def", "g ( a )"), ("def", "g ( a , b )"), ("if", "a"), ("if", "! a"), ("if", "a && b"), ("if", "typeof a == 'number'"),
          ("unless", "( a )"), ("unless", "a || b"), ("content", "a"), ("content", "a + b"), ("content", "f ( a , b )"), ("replace", "[ a , b ]"), ("replace", "a ? 1 : 2"),
          ("strip", "a in { x : 1 }"), ("strip", "! b"), ("attrs", "[ [ 'k' , a ] ]"), ("attrs", "f ( [ ] )"), ("text", "a"), ("text", "- a + + b"), ("text", "f ( a ) [ 0 ]"),
          ("attr", "a"), ("attr", "a - - b"), ("text", "[ { k : a } ] [ 0 ] . k"), ("attr", "function ( ) { return a ; } ( )"), ("text", "new f ( 1 ) . x")]
GAPS = ("", " ", "\t", "  ", "\n", " \n\t", "\r\n")
WITH_ATTR = dict(tk.ELEM_ATTR)


def spaced(n, gaps, form):
    kind, tokens = TOKENS[n]
    tokens = tokens.split()
    arg = "".join(g + t for g, t in zip(gaps, tokens + [""]))
    body = {"for": "${a}", "with": "${q}" + ("${z}" if "z" in tokens else ""), "def": "F${a}"}.get(kind, "t")
    if kind == "text":
        src = "<i>${%s}</i>" % arg
    elif kind == "attr":
        src = '<i k="${%s}" l="x${%s}"/>' % (arg, arg)
    elif form == "element":
        src = '<js:%s %s="%s">%s</js:%s>' % (kind, WITH_ATTR[kind], arg, body, kind)
    else:
        src = '<b k="${a}" js:%s="%s">%s</b>' % (kind, arg, body)
    return "<r>%s%s</r>" % (src, "${g(1)}" if kind == "def" else "")


def gen_spacing(most):
    def gen(choose):
        n = choose(len(TOKENS))
        kind, tokens = TOKENS[n][0], TOKENS[n][1].split()
        gaps, left = [], most
        for i in range(len(tokens) + 1):
            before, after = (tokens[i - 1] if i else ""), (tokens[i] if i < len(tokens) else "")
            words = before[-1:].isalnum() and after[:1].isalnum() or before in ("+", "-") and before == after or kind == "for" and "in" in (before, after)
            options = [s for s in GAPS if (s or not words) and not (before == "return" and "\n" in s)]
            usual = " " if words else ""
            if left and choose((0, 1)):
                left -= 1
                gaps.append(choose([s for s in options if s != usual]))
            else:
                gaps.append(usual)
        return n, tuple(gaps), choose(("element", "attr") if kind in ("for", "with", "def", "if", "unless", "replace") else ("attr",))
    return gen


_spaced = {}
SP_CTX = [{"a": "x", "b": 0, "l": [1, 2]}, {"a": 0, "b": 3, "l": []}]


def spaced_results(src):
    code = js.compile1(src)
    return tuple(js.execute({"t": code}, [("t", js.source_of(c)[:-1] + ", f: function (a) { return a === undefined ? 7 : [a]; }}", {}) for c in SP_CTX]))


def run_spacing(case):
    n, gaps, form = case
    src = spaced(n, gaps, form)
    if (n, form) not in _spaced:
        _spaced[n, form] = spaced_results(spaced(n, ("",) + (" ",) * (len(TOKENS[n][1].split()) - 1) + ("",), form))
    want = _spaced[n, form]
    got = spaced_results(src)
    core.outcome(got)
    if got != want:
        return "%r gives %r, but with other spacing %r" % (src, got, want)


# ----------------------------------------------------------------------- every element and attribute
ECTL = {"": (), "if": (("if", "a"),), "for": (("for", ("i", "l")),), "content": (("content", "a"),), "replace": (("replace", "a"),), "strip": (("strip", "a"),), "attrs": (("attrs", "[['k', a], ['m', b]]"),)}
ECTX = [dict(a="<a>", b=None, l=[1, 2]), dict(a="", b="&", l=[])]


def gen_elements(choose):
    return (choose(names.TAGS),)


def run_elements(case):
    tag = case[0]
    for form in ("none", "title") if tag in names.VOIDS + ["script", "style"] else ("none", "title", "nested"):
        attrs = ((), (("title", (("t", " t & "),)), ("alt", (("x", "a"),)), ("id", None)))[form == "title"]
        kids = () if tag in names.VOIDS or form == "none" else (("t", "a < " if tag not in ("script", "style") else "a "), ("x", "a")) + ((el("b", (), (), (("x", "b"),)), el("br", (), (), ())) if form == "nested" else ())
        nodes = tuple(el(tag, attrs, ECTL[c], kids) for c in sorted(ECTL) if c != "content" or tag not in names.VOIDS)
        rv = js.compare({"t": (el("html", (), (), nodes),)}, "t", ECTX)
        if rv:
            return rv


def gen_attributes(choose):
    return choose(names.ATTRS), choose(("p", "input"))


def run_attributes(case):
    name, tag = case
    values = [(("t", "a < 'b'"),), (), None, (("x", "a"),), (("x", "b"),), (("t", "a "), ("n", "a")), (("x", "a"), ("x", "l"))]
    nodes = [el(tag, ((name, v),), (), ()) for v in values] + [el(tag, ((name, (("x", "a"),)),), ECTL[c], ()) for c in ("if", "strip", "attrs")] + [el(tag, (), (("attrs", "[[%r, a], [%r, b], ['z', a]]" % (name, name + "2")),), ())]
    return js.compare({"t": (el("html", (), (), nodes),)}, "t", ECTX)


SIZED = tuple("children static expressions names variables parts attributes dynamic_attributes characters comment depth depth_with depth_def depth_block depth_strip contents defs blocks name_def name_variable words spaces".split())


def run_size(case):
    ts, ctx = sizes.case(*case)
    r = js.compare(ts, "t", [ctx])
    return r and r[:600] + " ... " + r[-600:]


def suites(tier):
    from mc import c21
    deep = tier == "thorough"
    positions = sorted(EPOS)
    some = [(None, None), ("a", "b"), ("b", "a")]
    every = [(x, y) for x in (None, "a", "b") for y in (None, "a", "b")]
    rv = [
        core.Suite("values", gen_values, run_values, "%d values in %d positions" % (len(VALUES), len(POS))),
        core.Suite("expressions", gen_expr((1, 2), positions) if deep else gen_expr((1, 2), positions, True, ATOMS[:-1:2]), run_expr, "expressions of up to two atoms in each position, against their value by themselves"),
        core.Suite("operators", gen_expr((3,), ["unless", "strip", "text"], True, ATOMS[:4]) if deep else gen_expr((3,), ["unless", "strip", "text"], False, ["a", "b"], BINARY[:1] + BINARY[3:4] + BINARY[8:11]), run_expr, "larger expressions"),
        core.Suite("nesting1", gen_nest(1, sorted(LEAVES)), run_nest, "one construct"),
        core.Suite("nesting2", gen_nest(2, sorted(LEAVES)), run_nest, "two nested constructs"),
        core.Suite("nesting3", gen_nest(3, sorted(LEAVES) if deep else ["ab"]), run_nest, "three nested constructs"),
        core.Suite("scopes1", gen_scope(1, USES, every), run_scope, "one binding construct, uses inside and around"),
        core.Suite("scopes2", gen_scope(2, USES, every), run_scope, "two binding constructs"),
        core.Suite("scopes3", gen_scope(3, USES if deep else USES[:1], every if deep else some), run_scope, "three binding constructs"),
        core.Suite("static", gen_text(3 if deep else 2), run_text, "static text over %d characters" % len(CHARS)),
        core.Suite("inside1", c21.gen_inside(1, sorted(LEAVES), ("plain",), range(len(USES)), (0, 1)), c21.run_inside, "one construct within the blocks and defs of templates that extend others"),
        core.Suite("inside2", c21.gen_inside(2, ["ab"], ("plain",), [0, 2] if not deep else range(len(USES)), (0, 1)), c21.run_inside, "two nested constructs in the same places"),
        core.Suite("spacing", gen_spacing(2 if deep else 1), run_spacing, "every kind of white space between any tokens of arguments and expressions"),
        core.Suite("literals", gen_literals, run_expr, "%d expressions without variables in each position" % len(LITERALS)),
        core.Suite("elements", gen_elements, run_elements, "every HTML element with every construct"),
        core.Suite("attributes", gen_attributes, run_attributes, "every HTML attribute in every form"),
        core.Suite("names", gen_names, run_names, "%d names in %d roles" % (len(NAMES), len(ROLES))),
        core.Suite("finished", gen_finished(4 if deep else 3), run_finished, "sequences of uses of a finished value"),
        core.Suite("sizes", gen_sizes, run_sizes, "lists of up to %d items" % SIZES[-1]),
        core.Suite("size", sizes.gen(SIZED, deep), run_size, "%d kinds of templates of up to %d parts" % (len(SIZED), 1025 if deep else 257)),
        core.Suite("depth", gen_depth, run_depth, "recursive defs"),
        core.Suite("bound", gen_bound(3 if deep else 2), run_bound, "sequences of operations with three bound templates"),
        core.Suite("state", gen_state(3 if deep else 2), run_state, "sequences of renderings with the same or other context objects"),
    ]
    if deep:
        rv.append(core.Suite("nesting4", gen_nest(4, ["ab"]), run_nest, "four nested constructs"))
    return rv
