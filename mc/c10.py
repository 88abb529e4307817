"""C10: the accelerated Buffer behaves like the Python Buffer."""
from mc import buf, core, py, tk

C = P = None


def prepare():
    global C, P
    import tonnikala.runtime.python as mod
    C = mod.Buffer
    P = buf.python_buffer().Buffer
    assert C is not P and "buffer" in C.__module__ + C.__name__.lower()
    b = C()
    assert type(type(b).join).__name__ == "method_descriptor", "the extension is not in use"


def run(case):
    sides = []
    for B in (C, P):
        bs = [B(), B()]
        bs[1]("one<", 1)
        sides.append((B, bs, buf.values(bs)))
    for i, op in enumerate(case):
        res = []
        for B, bs, vals in sides:
            core.step()
            r = buf.apply(B, bs, vals, op)
            res.append((r, bs[0].join(), str(bs[1])))
        core.outcome(res[0])
        if res[0] != res[1]:
            return "after %r: the accelerated Buffer gives %r, the other %r" % (case[:i + 1], res[0], res[1])
        if type(res[0][1]) is not str or type(res[1][1]) is not str:
            return "join gives %r, %r" % (type(res[0][1]), type(res[1][1]))


def gen(*alphabets):
    def g(choose):
        return tuple(choose(a) for a in alphabets)
    return g


CALLS = buf.call_ops(buf.NAMES, 2)
ATTRS = [("attr", 0, n, v) for n in buf.NAMES for v in buf.NAMES]
SMALL = [("call", 0, (n,)) for n in buf.FEW] + [("call", 1, ("b0",)), ("call", 1, ("b1", "b1")), ("attr", 0, "name", "b1"), ("attr", 0, "name", "str"), ("attr", 0, "b0", "b0"),
         ("attr", 0, "name", "fail"), ("attr", 0, "fail", "true"), ("attr", 1, "b0", "html"), ("new", 1), ("new", 0), ("escape", 0), ("call", 0, ("str", "fail", "str"))]


# whole templates with either
TEMPLATES = [
    '<p class="$a" title="${b}" data="x${a}">$a<b py:for="i in w">${i}${f(i)}</b><py:def function="f(x)"><i py:strip="b">$x</i></py:def></p>',
    '<p py:attrs="at"><py:block name="k">${a}</py:block>${k()}${literal(a)}<py:with vars="q=k()">${q}${[str(q)]}</py:with></p>',
    '<p><py:def function="f(x)">${x}<py:if test="x">${a}</py:if></py:def>${f(f(f(a)))}<b k="${f(b)}" l="x${f(w)}" py:content="f(None)"/></p>',
    '<p><?python q = [a] ?>${q}<b py:replace="b"/>' + "<i>$a</i>" * 130 + "</p>",
]
VALUES = ("str", "markup", "none", "true", "html", "int", "uni", "subhtml", "list", "fail")


def gen_t(choose):
    return choose(len(TEMPLATES)), choose(VALUES), choose(VALUES), choose((0, 1, 2))


def run_t(case):
    i, a, b, w = case
    import tonnikala.runtime.python as mod
    vals = buf.values([C(), C()])
    ctx = dict(a=vals[a], b=vals[b], w=[[], [vals[a], vals[b]], "12"][w], at=[None, {"k": vals[a], "l": vals[b]}, [("n<", vals[b])]][w])
    got = []
    for m in (mod, buf.python_buffer()):
        from tonnikala.loader import Loader
        ld = Loader()
        if m is not mod:
            # the documented place where the loader gets its runtime
            ld.runtime = m.TonnikalaRuntime
        t = ld.load_string(TEMPLATES[i])
        got.append(py.render(t, ctx))
        core.step()
    core.outcome(got[0])
    if got[0] != got[1]:
        return "%s with %r\n  accelerated: %r\n  Python:      %r" % (TEMPLATES[i], ctx, got[0], got[1])


def gen_o(choose):
    return tuple((choose(("name", "int", "b1", "fail", "uni")), choose(VALUES + ("b0", "false", "failhtml"))) for _ in range(choose((1, 2)))), choose(("list", "dict", "iter", "tuple"))


def run_o(case):
    """output_attrs"""
    import tonnikala.runtime.python as mod
    items, form = case
    res = []
    for m in (mod, buf.python_buffer()):
        bs = [m.Buffer(), m.Buffer()]
        bs[1]("one")
        vals = buf.values(bs)
        pairs = [(vals[n], vals[v]) for n, v in items]
        arg = {"list": list, "dict": dict, "iter": iter, "tuple": tuple}[form](pairs)
        core.step()
        try:
            rv = m.output_attrs(arg)
            res.append(str(rv))
            bs[0](rv)
            res[-1] += "|" + str(bs[0])
        except Exception as e:
            res.append(type(e).__name__)
    core.outcome(res[0])
    if res[0] != res[1]:
        return "output_attrs(%r): %r, %r" % (case, res[0], res[1])


# --- sizes, around every power of two
def sizes(most):
    return sorted({n for k in range(1, 22) for n in (2 ** k - 1, 2 ** k, 2 ** k + 1, 10 ** (k // 3)) if n <= most})


SIZED = ("args", "calls", "length", "pieces", "name", "value", "deep")


def gen_sizes(most):
    def g(choose):
        return choose(SIZED), choose(sizes(most)), choose(("str", "uni", "int", "conv", "mixed"))
    return g


class Conv(object):
    def __str__(self):
        return "c<"


def run_sizes(case):
    how, n, kind = case
    out = []
    for B in (C, P):
        b, other = B(), B()
        other("x", "<y")
        one = {"str": "s", "uni": "\u20ac", "int": 7, "conv": Conv(), "mixed": other}[kind]
        text = str(one) * n
        core.step()
        if how == "args":
            b(*[one] * n)
        elif how == "calls":
            for i in range(n):
                b(one)
        elif how == "length":
            b(text, one)
        elif how == "name":
            b.output_boolean_attr(text, one)
        elif how == "value":
            b.output_boolean_attr("k", text + "<")
        elif how == "pieces":
            third = B()
            third(*["<", one] * n)
            b(third, third)
        else:
            for i in range(min(n, 3000)):
                c = B()
                c("(", b, one)
                b = c if i < 1500 else b
        out.append((b.join(), str(b) == b.join()))
    core.outcome((how, n, kind, len(out[0][0])))
    if out[0] != out[1]:
        a, b = out[0][0], out[1][0]
        return "%r: the accelerated Buffer gives %d characters %r..., the other %d, %r..." % (case, len(a), a[-50:], len(b), b[-50:])


def suites(tier):
    deep = tier == "thorough"
    rv = [
        core.Suite("calls_attrs", gen(CALLS + ATTRS, buf.QUERIES[:6] + [("call", 1, ("b0", "b0"))]), run, "every call with up to two arguments and every attribute, then every query"),
        core.Suite("queries", gen(buf.QUERIES, [("call", 0, (n,)) for n in buf.NAMES] + [("attr", 0, "name", n) for n in buf.NAMES], buf.QUERIES), run, "queries before and after"),
        core.Suite("histories", gen(*[SMALL] * (5 if deep else 4)), run, "all histories of operations on two buffers"),
        core.Suite("pairs", gen(ATTRS, [("call", 0, (n,)) for n in buf.NAMES], [("attr", 1, "b0", "b0")]), run, "an attribute, a call"),
        core.Suite("templates", gen_t, run_t, "templates rendered with either implementation"),
        core.Suite("sizes", gen_sizes(2 ** 21 if deep else 2 ** 17 + 1), run_sizes, "numbers of arguments, calls and characters around every power of two"),
        core.Suite("output_attrs", gen_o, run_o, "output_attrs with either implementation"),
    ]
    if deep:
        rv.append(core.Suite("triples", gen(buf.call_ops(buf.NAMES, 3)[1 + len(buf.NAMES) + len(buf.NAMES) ** 2:]), run, "calls with three arguments"))
    return rv
