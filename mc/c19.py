"""C19: exceptions keep their identity, and tracebacks name the lines of the templates."""
from mc import core, py, c18

M = "\u00a7"       # marks the place of something on the way to the exception; removed from the source


class Boom(Exception):
    pass


class FailsHtml(object):
    def __init__(self, err):
        self.err = err

    def __html__(self):
        raise self.err


class A(int):
    def __call__(self, *a):
        return "A"


def context(err):
    def boom(*a):
        raise err

    def failing(n=0):
        for i in range(n):
            yield i
        raise err
    return dict(boom=boom, failing=failing, bad=FailsHtml(err), ok=lambda *a: "k", a=A(2), b=[A(1), A(2)], c="c", e="", f=str)


def strip_marks(files):
    """the sources, and {name: lines of the marks}; marks are M or M + digit"""
    out, lines = {}, {}
    for name, src in files.items():
        parts = src.split(M)
        line, rest = 1, parts[0]
        for p in parts[1:]:
            lines.setdefault(p[0], []).append((name, rest.count("\n") + 1))
            rest += p[1:]
        out[name] = rest
    return out, [x for k in sorted(lines) for x in lines[k]]


def check(files, main, funcname="__main__", syntax="tonnikala", make=None, **kw):
    files, want = strip_marks(files)
    if len(files) == 1:
        from tonnikala.loader import Loader
        t = Loader(syntax=syntax, **kw).load_string(files[main], main)
    else:
        t = py.loader(files, syntax=syntax, **kw).load(main)
    err = make() if make else Boom("x")
    cause, chained = getattr(err, "__cause__", None), getattr(err, "__context__", None)
    core.step()
    try:
        got = t.render(context(err), funcname)
    except BaseException as e:
        if make is not ANY and e is not err:
            return files, "raises %r instead of the original exception" % (e,)
        tb, frames = e.__traceback__, []
        while tb is not None:
            n = tb.tb_frame.f_code.co_filename
            for name in files:
                if n == name or n.endswith("/" + name):
                    frames.append((name, tb.tb_lineno))
            tb = tb.tb_next
        core.outcome(tuple(frames))
        it = iter(frames)
        if want and (not all(x in it for x in want) or frames[-1] != want[-1]):
            return files, "has the template frames %r, expected %r" % (frames, want)
        if e.__cause__ is not cause:
            return files, "got another cause: %r" % (e.__cause__,)
        if make is not ANY and e.__context__ is not chained:
            return files, "got another context: %r" % (e.__context__,)
        return None
    return files, "renders %r" % got


def ANY():
    return None


def report(r):
    if r:
        files, msg = r
        return "\n".join("--- %s\n%s" % x for x in files.items()) + "\n" + msg


# failing sites within an element
SITES = [
    "${§0boom()}", "$§0boom()", "x\ny ${a} $§0boom()", "$c\n$c\n${§0boom()}\n$c", "${ok()}${\n§0boom()}", "${(a +\n §0boom())}", "${ok(a,\n [1,\n §0boom()])}", "${§0boom(ok(\n1,\n2))}", "$ok(\n§0boom())", "${a and (\n§0boom())}", "${[§0boom(i)\nfor i in b]}", "${[i for i in b\nif §0boom()]}", "${(§0lambda:\n§1boom())()}", "${'%s%s' % (1,\n§0boom())}", "${f'''\n{§0boom()}'''}",
    "<i c='${§0boom()}'/>", "<i\nc='$a'\nd='${§0boom()}'/>", "<i c='x\n$a ${§0boom()}\n$a'/>", "<i\nc='1'\nd='x${ok(\n§0boom())}'/>", "<i c='$§0boom()'>\n</i>",
    "<i py:if='§0boom()'/>", "<i\npy:if='a and (\n§0boom())'/>", "<py:if\ntest='§0boom()'>\n</py:if>", "<py:if test='a'>\n${§0boom()}</py:if>", "<i\npy:unless='§0boom()'/>", "<py:unless\ntest='§0boom()'/>",
    "<i py:for='x in §0boom()'/>", "<i\npy:for='x in (b,\n§0boom())'/>", "<py:for\neach='x in §0boom()'>$x\n</py:for>", "<py:for each='x in b'>$x\n${x == 2 and §0boom()}</py:for>", "<i\npy:for='x in §0failing()'>\n$x</i>", "<py:for\neach='x in §0failing(2)'>\n$x\n</py:for>", "<i\npy:for='x, y in §0b'/>",
    "<i\npy:with='x = §0boom()'>\n$x</i>", "<py:with\nvars='x = 1;\ny = §0boom()'/>", "<py:with vars='x = 1'>\n${§0boom(x)}</py:with>", "<py:vars names='x=(\n§0boom())'/>",
    "<i\npy:strip='§0boom()'>x</i>", "<i\npy:content='§0boom()'/>", "<i\npy:replace='§0boom()'/>", "<py:replace\nvalue='§0boom()'/>", "<i\npy:attrs='§0boom()'/>", "<i c='$a'\npy:attrs='{\n1: §0boom()}'/>", "<i py:content='(a,\n§0boom())'/>",
    "<?py §0boom() ?>", "<?py\nx = 1\ny = §0boom()\n?>", "<?py\n\nfor x in b:\n  §0boom()\n?>", "<?py\ndef g():\n  §1boom()\n§0g()\n?>", "<?py\ndef g():\n  §1boom()\n?>\n${§0g()}", "<?py\nx = ok(1,\n§0boom())\n?>",
    "<py:def function='g(x)'>\n${§1boom()}</py:def>\n${§0g(1)}", "<py:def function='g(x)'>\n$x ${§2boom()}</py:def><py:def function='h()'>\n${§1g(1)}</py:def>${ok()}\n${§0h()}", "<i py:def='g(x)'\nc='${§1boom()}'/>\n${§0g(1)}", "<py:block name='k'>\n${§0boom()}</py:block>", "<i\npy:block='k'\nc='${§0boom()}'/>",
    "<py:def function='g(x)'><b py:if='x'>\n${§1g(x - 1)}</b><b py:if='not x'>${\n§2boom()}</b></py:def>$a\n${ok(1,\n§0g(1))}",
    "$c\n${ok(1)}<b/>\n$c$c\n${§0boom()}<b/>\n$c", "<b a='$c\n'>$c\n${§0boom()}\n</b>", "<script>\n$c\n${§0boom()}</script>", "<b\n>\n<!-- x\n -->${§0boom()}</b>", "&amp;\n&lt; ${§0boom()}", "<py:if test='1'>\n${§0boom()}</py:if>", "<py:if test='0'>\n</py:if><py:for each='x in b'\n><py:if test='x'>${§0boom()}</py:if></py:for>",
    "${§0a.nope}", "x\n${b[§09]}", "<i\nc='${1/§00}'/>", "<i py:if='\n§0nope()'/>",
]
SITES_BOOM = [s for s in SITES if "boom" in s or "failing" in s]
SITES_OTHER = [s for s in SITES if s not in SITES_BOOM]
BEFORE = c18.BEFORE
# hosts, some of which need a call to be reached
HOSTS = [
    ("<r>", "</r>"), ("<!DOCTYPE html>\n<r\n>", "</r>"), ("<r><py:if\ntest='a'>", "</py:if></r>"), ("<r><py:for each='w in b'>\n<b>", "</b></py:for></r>"),
    ("<r><py:def function='hh()'>\n", "\n</py:def>\n\n${ok()}${§!hh()}</r>"), ("<r><py:block name='mm'><i py:strip='a\n'>", "</i></py:block></r>"), ("<r py:with='v1=1;\nv2=2'><i><py:unless test='e'>", "</py:unless></i></r>"),
    ("<r><i py:for='w in b' py:def='hh(z=\n1)'>", "</i><b\nc='${§!hh()}'/></r>"),
]


def run_site(case):
    h, b, x = case
    pre, post = HOSTS[h]
    return report(check({"m.tk": pre + "".join(BEFORE[i] for i in b) + SITES_BOOM[x] + "\n" + post}, "m.tk"))


def gen_site(depth, sites):
    def g(choose):
        h = choose(len(HOSTS))
        n = choose(depth + 1)
        b = tuple(choose(len(BEFORE)) for _ in range(n))
        if any("href" in BEFORE[i] for i in b):
            raise core.Skip()
        return h, b, choose(len(sites))
    return g


def run_other(case):
    h, b, x = case
    pre, post = HOSTS[h]
    return report(check({"m.tk": pre + "".join(BEFORE[i] for i in b) + SITES_OTHER[x] + "\n" + post}, "m.tk", make=ANY))


def run_translatable(case):
    h, b, x = case
    pre, post = HOSTS[h]
    return report(check({"m.tk": pre + "".join(BEFORE[i] for i in b) + SITES_BOOM[x] + "\n" + post}, "m.tk", translatable=True))


FAR = c18.FAR + ["$c$c$c$c$c\n", "<b c='$c\n'/>"]


def run_far(case):
    f, n, x = case
    return report(check({"m.tk": "<r>" + FAR[f] * n + SITES_BOOM[x] + "\n</r>"}, "m.tk"))


def gen_far(sizes, sites):
    return lambda choose: (choose(len(FAR)), choose(sizes), choose(sites))


LONG, FILLS = c18.LONG, c18.FILLS


def gen_long(sizes):
    return lambda choose: (choose(len(LONG)), choose(FILLS), choose(sizes))


def run_long(case):
    x, fill, n = case
    files, msg = check({"m.tk": LONG[x].replace("$c@", "${c}@").replace("@", fill * n)}, "m.tk") or (None, None)
    if msg:
        return "%s\nwith %d %r for @ %s" % (LONG[x], n, fill, msg)


def gen_separators(choose):
    return choose(c18.SEP_PLACES), choose(c18.SEPARATED).replace("C", choose(c18.SEPARATORS)), 1


# the forms in which attributes can be written
ATTR_NAMES = ["c", "C", "daTa-x", "XLINK:Href", "@c", "c.d", "py:content", "PY:If"]
ATTR_EQUALS = ["=", " = ", "\n=", "=\n\t"]
ATTR_VALUES = ["§0", "x\n §0", "\n§0", "$c\n\n$c§0", "&amp;\n§0\n"]
ATTR_BEFORE = ["<b ", "<B\n", "<b\n\n  ", "<b k='1'\n", "<b K='\n$c'\n D\n", "<b e=$c\n\nf ", "<my-el k = '1\n2' ", "<b\n@k='>'\n/\n"]


def gen_source(choose):
    name, before = choose(ATTR_NAMES), choose(ATTR_BEFORE)
    control = name.lower().startswith("py:")
    quote = choose(("'", '"', ""))
    value = choose(ATTR_VALUES if quote and not control else ATTR_VALUES[:1])
    return name, before, choose(ATTR_EQUALS), quote, value, choose(("/>", "\n>\n</>", " ></>"))


def run_source(case):
    name, before, equals, quote, value, end = case
    call = "§0boom()" if name.lower().startswith("py:") else value.replace("§0", "${§0boom()}")
    tag = before.split()[0][1:]
    if not quote and end == "/>":
        end = " />"
    return report(check({"m.tk": "<r>\n" + before + name + equals + quote + call + quote + end.replace("</", "</" + tag) + "</r>"}, "m.tk"))


# several templates; @ is where something else is put before
P = "<r>@$c\n<py:block name='k'>x</py:block>\n<py:def function='g(x)'>\n$x</py:def>\n</r>"
L = "<l>@<py:def function='g()'>\n${§1boom()}</py:def>\n</l>"
PATHS = [
    ({"p.tk": P.replace("<py:block", "<py:block"), "m.tk": "<py:extends href='p.tk'>@\n<py:block name='k'>$c\n${§0boom()}</py:block></py:extends>"}, "__main__"),
    ({"p.tk": "<r>@<py:block name='k'>\n${§1boom()}</py:block>\n</r>", "m.tk": "<py:extends href='p.tk'>@\n<py:block name='j'/></py:extends>"}, "__main__"),
    ({"p.tk": "<r>@<py:def function='g(x)'>\n$x ${§2boom()}</py:def>\n<py:block name='k'/></r>", "m.tk": "<py:extends href='p.tk'>@<py:block name='k'>\n\n${§1g(1)}</py:block></py:extends>"}, "__main__"),
    ({"p.tk": "<r>@\n<py:def function='g(x)'>$x</py:def>\n$c${§0g(1)}</r>", "m.tk": "<py:extends href='p.tk'>@<py:def function='g(x)'>\n\n${§1boom(1)}</py:def></py:extends>"}, "__main__"),
    ({"p.tk": "<r>@\n<i py:block='k'/></r>", "m.tk": "<py:extends href='p.tk'>@<i py:block='k'>\n$c\n${§0boom()}</i></py:extends>"}, "k"),
    ({"p.tk": "<r>@\n<i py:block='k'/></r>", "q.tk": "<py:extends href='p.tk'>@\n\n<py:block name='k'><py:block name='kk'/></py:block></py:extends>", "m.tk": "<py:extends href='q.tk'>@<i py:block='kk'>\n$c\n${§0boom()}</i></py:extends>"}, "__main__"),
    ({"p.tk": "<r>@\n${§0g(1)}<py:def function='g(x)'/></r>", "q.tk": "<py:extends href='p.tk'>@\n\n<py:def function='g(x)'>$c${§1h(x)}</py:def></py:extends>", "m.tk": "<py:extends href='q.tk'>@<py:def function='h(x)'>\n$c\n${§2boom()}</py:def></py:extends>"}, "__main__"),
    ({"l.tk": L, "m.tk": "<r>@\n<py:import href='l.tk' alias='l'/>\n$c${§0l.g()}</r>"}, "__main__"),
    ({"l.tk": L, "m.tk": "<r>@\n<py:import href='l.tk' alias='l'/>\n$c<i\nc='${ok(l.§0g())}'/></r>"}, "__main__"),
    ({"l.tk": "<l>@<py:def function='g()'>\n${§1h(1)}</py:def>\n<py:def function='h(x)'>$x\n${§2boom()}</py:def></l>", "m.tk": "<r>@\n<py:import href='l.tk' alias='l'/>\n$c${§0l.g()}</r>"}, "__main__"),
    ({"l.tk": "<l>@<py:def function='g(f)'>\n${§1f(1)}</py:def>\n</l>", "m.tk": "<r>@\n<py:import href='l.tk' alias='l'/>\n<py:def function='h(x)'>$x\n${§2boom()}</py:def>$c${§0l.g(h)}</r>"}, "__main__"),
    ({"l.tk": L, "p.tk": "<r>@\n<py:block name='k'/></r>", "m.tk": "<py:extends href='p.tk'>@<py:import href='l.tk' alias='l'/>\n<py:block name='k'>\n${§0l.g()}</py:block></py:extends>"}, "__main__"),
    ({"b.tk": "<l>@<py:def function='g()'>\n${§1h(1)}</py:def>\n<py:def function='h(x)'>$x\n</py:def></l>", "l.tk": "<py:extends href='b.tk'>@<py:def function='h(x)'>\n\n\n${§2boom()}</py:def></py:extends>", "m.tk": "<r>@\n<py:import href='l.tk' alias='l'/>\n$c${§0l.g()}</r>"}, "__main__"),
    ({"l.tk": "<l>@<py:block name='g'>\n${§1boom()}</py:block>\n</l>", "m.tk": "<r>@\n<py:import href='l.tk' alias='l'/>\n$c${§0l.g()}</r>"}, "__main__"),
    ({"l.tk": "<l>@<py:import href='n.tk' alias='n'/><py:def function='g()'>\n${§1n.g()}</py:def>\n</l>", "n.tk": "<n>@\n\n\n<py:def function='g()'>\n${§2boom()}</py:def>\n</n>", "m.tk": "<r>@\n<py:import href='l.tk' alias='l'/>\n$c${§0l.g()}</r>"}, "__main__"),
    ({"m.tk": "<r>@\n<py:def function='g()'>\n$c\n${§0boom()}</py:def></r>"}, "g"),
]


def run_path(case):
    p, bs = case
    files, fn = PATHS[p]
    files = dict(files)
    for name, b in zip(sorted(files), bs):
        files[name] = files[name].replace("@", b)
    return report(check(files, "m.tk", fn))


PATH_BEFORE = ["", "<!--\n\n-->", "<py:def\nfunction='fc()'><i\nc='1\n2'/></py:def>", "<py:block name='kb'>\n$c\n</py:block>", "\n", "<!--!\n-->\n", "<py:def function='fb(a,\nb)'>\n$a\n</py:def>"]


def gen_path(n):
    def g(choose):
        p = choose(len(PATHS))
        return p, tuple(choose(PATH_BEFORE[:n]) for _ in PATHS[p][0])
    return g


# --- references to other templates that fail when they are loaded or bound
# the reference to $n is in a template with lines before it
REFERENCES = {
    "import": "@<r>@\n§<py:import href='$n' alias='l'/>\n</r>", "deep": "@<r><b>\n<i>@</i>\n§<py:import href='$n' alias='l'/>\n</b>$c</r>", "if": "@<r><py:if test='a'>@\n§<py:import href='$n' alias='l'/>\n</py:if></r>",
    "for": "@<r>\n<py:for each='x in b'>\n@$x\n§<py:import href='$n' alias='l'/></py:for></r>", "def": "@<r>@\n<py:def function='h()'>\n\n§<py:import href='$n' alias='l'/>\n</py:def>\n$c\n${§h()}</r>",
    "block": "@<r>@<py:block name='h'>\n$c\n§<py:import href='$n' alias='l'/>\n</py:block>\n</r>", "with": "@<r py:with='x=1'>\n@$x\n§<py:import href='$n' alias='l'/>\n</r>", "two": "@<r>@<py:import href='ok.tk' alias='k'/>\n${a}\n§<py:import href='$n' alias='l'/></r>",
    "extends": "@\n§<py:extends href='$n'>@\n<py:block name='b'>x</py:block></py:extends>", "extends2": "@§<py:extends href='$n'>\n@\n<py:import href='ok.tk' alias='k'/></py:extends>",
    "extended": "@<py:extends href='ok.tk'>@\n\n<py:block name='k'>\n§<py:import href='$n' alias='l'/></py:block></py:extends>", "import2": "@<py:extends href='ok.tk'>@\n\n§<py:import href='$n' alias='l'/>\n</py:extends>",
}
FAILURES = {"missing": None, "default": "@<f>@\n<py:def function='g(a=§boom())'>\n</py:def></f>", "default2": "@<f>@<py:def function='k(a=1)'/>\n$c\n<b><py:def function='g(a,\nb=§boom())'>\n</py:def></b></f>", "extended": "@<py:extends href='ok.tk'>@\n<py:def function='g(a=§boom())'/></py:extends>"}
OUTSIDE = ["", "\n", "<!--\n\n-->\n"]
INSIDE = ["", "\n$c\n", "<!--!\n-->\n", "<i\nc='1\n$c'/>"]


BOUND = ("import", "deep", "two", "extends", "extends2", "import2")


def gen_loading(choose):
    chain = (choose(sorted(REFERENCES)),)
    if choose(2):
        # only binding runs the code of what is imported
        chain += (choose(sorted(REFERENCES) if chain[0] in ("extends", "extends2") else BOUND),)
    return chain, choose(sorted(FAILURES)), choose(OUTSIDE), choose(INSIDE), choose((False, True))


def run_loading(case):
    chain, failure, outside, inside, translatable = case
    srcs = [REFERENCES[k].replace("$n", "t%d" % (i + 1)) for i, k in enumerate(chain)]
    if FAILURES[failure]:
        srcs.append(FAILURES[failure])
    files = {"ok.tk": "<k>\n\n<py:block name='k'/></k>"}
    want = []
    for i, s in enumerate(srcs):
        head, s = s.split("@", 1)
        # only definitions are allowed there
        s = head + outside + s.replace("@", inside if "<py:extends" not in s else "\n" * inside.count("\n"))
        parts = s.split(M)
        # a call comes after what it calls
        want.append({1 + "".join(parts[:j]).count("\n") for j in range(1, len(parts))})
        files["t%d" % i] = "".join(parts)
    ld = py.loader(files, translatable=translatable)
    err = Boom("x")
    core.step(len(srcs))
    try:
        got = ld.load("t0").render(context(err))
    except Exception as e:
        if failure == "missing":
            if not isinstance(e, OSError) or "t%d" % len(chain) not in str(e):
                return "%r\nraises %r" % (files, e)
        elif e is not err:
            return "%r\nraises %r" % (files, e)
        tb, frames = e.__traceback__, {}
        while tb is not None:
            n = tb.tb_frame.f_code.co_filename.rpartition("/")[2]
            if n in files:
                frames.setdefault(n, []).append(tb.tb_lineno)
            tb = tb.tb_next
        core.outcome(repr(sorted(frames.items())))
        for i, w in enumerate(want):
            if chain[i:i + 1] in (("extends",), ("extends2",)) and chain[i + 1:] and chain[i + 1] not in BOUND:
                # all is bound, and what runs is the parent
                continue
            has = frames.get("t%d" % i, [0])
            if not w <= set(has) or has[-1] not in w:
                return "%s\nhas frames %r; t%d should have %r" % ("\n".join("--- %s\n%s" % x for x in files.items()), frames, i, w)
        return
    return "%r\nrenders %r" % (files, got)


def with_cause():
    try:
        raise Boom("x") from ValueError("y")
    except Boom as e:
        return e


def with_context():
    try:
        try:
            {}[1]
        except KeyError:
            raise Boom("x")
    except Boom as e:
        return e


class NoInit(Exception):
    def __init__(self, a, b):
        self.a = a


def template_error():
    from tonnikala.runtime.exceptions import TemplateSyntaxError
    return TemplateSyntaxError("m", lineno=3, filename="other.tk")


class Base(BaseException):
    pass


KINDS = [Boom, with_cause, lambda: NoInit(1, 2), lambda: StopIteration(1), lambda: KeyError("x"), lambda: AttributeError("y"), lambda: NameError("z"), lambda: SyntaxError("s"), lambda: OSError(2, "x"), lambda: SystemExit(3), lambda: KeyboardInterrupt(), lambda: GeneratorExit(), lambda: Base(), lambda: UnicodeDecodeError("utf-8", b"x", 0, 1, "r"), lambda: RecursionError("r"), lambda: MemoryError(), lambda: AssertionError(), with_context]


def run_kind(case):
    k, x = case
    if k == 3 and "failing" in SITES_BOOM[x]:
        return None                # Python itself replaces it
    if k == len(KINDS):
        return report(check({"m.tk": "<r>\n" + unmarked(SITES_BOOM[x]) + "</r>"}, "m.tk", make=template_error))
    return report(check({"m.tk": "<r>\n" + SITES_BOOM[x] + "</r>"}, "m.tk", make=KINDS[k]))


SITES_TAL = ["${§0boom()}", "x\ny ${a} $§0boom()", "<i\nc='$a'\nd='${§0boom()}'/>", "<i\ntal:condition='§0boom()'/>", "<i\ntal:repeat='x in (b,\n§0boom())'/>", "<i tal:repeat='x in b'>\n$x ${x == 2 and §0boom()}</i>", "<i\ntal:content='§0boom()'/>", "<i\ntal:replace='§0boom()'/>", "<tal:replace\nvalue='§0boom()'/>", "<i\ntal:omit-tag='§0boom()'>x</i>", "<i c='$a'\ntal:attrs='{\n1: §0boom()}'/>", "<script>\n$c\n${§0boom()}</script>"]


def run_tal(case):
    h, b, x = case
    pre, post = c18.HOSTS_TAL[h]
    return report(check({"m.tk": (pre + "".join(c18.BEFORE_TAL[i] for i in b)).replace("a in b", "za in b") + SITES_TAL[x] + "\n" + post}, "m.tk", syntax="chameleon"))


# line ends that are written as references
LINE_REFS = ["&#10;", "&#32;", "&amp;&#x20;"]
REF_SITES = ["a%sb\n${§0boom()}", "<i c='a%sb\n${§0boom()}'/>", "\na%s<b>\n${§0boom()}</b>", "<i c='%s'\nd='${§0boom()}'/>", "&#10;<b>\n$c%s</b>\n$§0boom()"]


def run_refs(case):
    r, x = case
    return report(check({"m.tk": "<r>" + REF_SITES[x] % LINE_REFS[r] + "</r>"}, "m.tk"))


def unmarked(s):
    return strip_marks({"": s})[0][""]


def suites(tier):
    deep = tier == "thorough"
    n = len(SITES_BOOM)
    return [
        core.Suite("sites", gen_site(2 if deep else 1, SITES_BOOM), run_site, "every place of a failing call after every layout in every host"),
        core.Suite("other", gen_site(1, SITES_OTHER), run_other, "failing lookups and operations"),
        core.Suite("translatable", gen_site(1 if deep else 0, SITES_BOOM), run_translatable, "the same with translation enabled"),
        core.Suite("far", gen_far((130, 260, 1500) if deep else (130,), n), run_far, "failing calls after many lines and outputs"),
        core.Suite("long", gen_long((1, 2, 3, 5, 300, 1025, 4500, 33000, 66000) if deep else (1, 3, 300, 4500, 66000)), run_long, "runs of line ends or spaces in every place before a failing call"),
        core.Suite("separators", gen_separators, run_long, "characters that some functions regard as the end of a line, in every place before a failing call"),
        core.Suite("attribute_source", gen_source, run_source, "the ways in which the attribute with the call and those before it can be written"),
        core.Suite("paths", gen_path(7), run_path, "calls through defs, blocks, parents and imports"),
        core.Suite("loading", gen_loading, run_loading, "references to templates that fail when they are loaded or bound"),
        core.Suite("chameleon", lambda choose: (choose(len(c18.HOSTS_TAL)), tuple(choose(len(c18.BEFORE_TAL)) for _ in range(choose(3))), choose(len(SITES_TAL))), run_tal, "Chameleon syntax"),
        core.Suite("references", lambda choose: (choose(len(LINE_REFS)), choose(len(REF_SITES))), run_refs, "character references before, including of a line end"),
        core.Suite("kinds", lambda choose: (choose(len(KINDS) + 1), choose(n)), run_kind, "kinds of exceptions"),
    ]
