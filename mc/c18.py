"""C18: any string is a template or raises a TemplateSyntaxError with file name and line."""
import os
import re

from mc import core, py

FILENAME = "dir/some.tk"

# fragment: (source, kind); kind: None, "bad" (always invalid), "open x", "close x", "?" (may change the meaning of what follows)
FRAGMENTS = [
    ("x", None), ("\n", None), (" $a", None), ("${a}", None), ("${a\n.b}", None), ("$$", None), ("&amp;", None), ("&#65;", None),
    ("<b>", "open b"), ("</b>", "close b"), ("<i c='1'/>", None), ("<br>", None), ("<!--c-->", None), ("<!--!c-->", None),
    ("<py:if test='a'>", "open py:if"), ("</py:if>", "close py:if"), ("<i py:for='a in b'>x</i>", None), ("<py:def function='f(a)'/>", None),
    ("<py:block name='k'>1</py:block>", None), ("<?py a = 1\n?>", None), ("<script>$a</script>", None), ("<i py:attrs='a' py:strip='b'/>", None),
    # invalid wherever they are
    ("<py:foo/>", "bad"), ("<i py:foo='1'/>", "bad"), ("<py:if/>", "bad"), ("<py:for/>", "bad"), ("<py:def/>", "bad"), ("<py:with/>", "bad"), ("<py:block/>", "bad"), ("<py:replace/>", "bad"),
    ("<py:import href='x'/>", "bad"), ("${}", "bad"), ("${a b}", "bad"), ("${a", "?"), ("${'}", "?"), ("<i c='${a'/>", "bad"), ("<i py:if='a b'/>", "bad"), ("<i py:for='a'/>", "bad"),
    ("<i py:def='f('/>", "bad"), ("<i py:with='1'/>", "?"), ("<i py:with='a=b c'/>", "bad"), ("<?py if?>", "bad"), ("<?py\n x = = 1\n?>", "bad"), ("&foo;", "bad"), ("&#99999999;", "bad"), ("<![CDATA[x]]>", "bad"), ("<![foo]>", "bad"), ("<![if a]>", "bad"),
    ("<i py:content='a+'/>", "bad"), ("<i py:attrs='{'/>", "bad"), ("<i py:strip='('/>", "bad"), ("<py:block name='1'/>", "?"), ("<py:import href='x' alias='1'/>", "?"),
    ("<py:extends href='x'>", "open py:extends"), ("</py:extends>", "close py:extends"), ("<!DOCTYPE html>", "?"), ("<!foo>", "?"), ("<?foo bar?>", "?"), ("<?py?>", "?"), ("<py:vars names='a=1'/>", None),
    # unfinished tokens
    ("<", "?"), ("<b ", "?"), ("<b c='", "?"), ("<!--", "?"), ("<?", "?"), ("</", "?"), ("&", "?"), ("&#", "?"), ("{", None), ("}", None), ("'", None), ("\"", None), (">", None), ("\x00", "?"), ("\ufffe", "?"), ("</>", "?"), ("<1>", "?"), ("<py:>", "?"), ("<i py:=''>", "?"), ("<script>", "?"),
]
PARENTS = None        # directory with the templates that others refer to


def prepare():
    global PARENTS
    PARENTS = os.path.join(core.scratch, "parents")
    os.mkdir(PARENTS)
    py.write_files(PARENTS, {"x": "<x/>"})


VALID = {s for s, k in FRAGMENTS if k is None or k.startswith(("open", "close"))}


def expected(frs):
    """reject / None when not decided here; frs are within a root element"""
    if any(k == "?" for s, k in frs):
        return None
    if any(k == "bad" for s, k in frs):
        return "reject"
    stack = []
    for s, k in frs:
        if k and k.startswith("open"):
            stack.append(k[5:])
        elif k and k.startswith("close"):
            if not stack or stack.pop() != k[6:]:
                return "reject"
    return None if stack else "balanced"


def load(src, **kw):
    """the error of loading, or None; a string for anything that should not be"""
    from tonnikala.loader import FileLoader, JSLoader
    from tonnikala.runtime.exceptions import TemplateSyntaxError
    core.step()
    try:
        if kw.get("syntax", "").startswith("js"):
            JSLoader(**kw).load_string(src, FILENAME)
        else:
            t = FileLoader([PARENTS], **kw).load_string(src, FILENAME)
            if not hasattr(t, "render"):
                return None, "no template: %r" % (t,)
        return None, None
    except TemplateSyntaxError as e:
        n = src.count("\n") + 1
        if e.filename != FILENAME:
            return e, "filename is %r" % (e.filename,)
        if not isinstance(e.lineno, int) or not 1 <= e.lineno <= n:
            return e, "line is %r of %d: %s" % (e.lineno, n, e.message)
        try:
            str(e)
        except Exception as e2:
            return e, "str() of the error raises %r" % e2
        return e, None
    except Exception as e:
        import traceback
        return e, "raises %s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_exc()[-1200:]))


def run_fragments(case):
    wrap, syntax, idx = case
    frs = [FRAGMENTS[i] for i in idx]
    src = "".join(s for s, k in frs)
    if wrap:
        src = "<root>" + src + "</root>"
    if syntax == "chameleon":
        src = src.replace("py:", "tal:")
    if syntax == "js_tonnikala":
        src = src.replace("py:", "js:").replace("<?py", "<?js")
    kw = {} if syntax == "tonnikala" else dict(syntax=syntax)
    e, msg = load(src, **kw)
    core.outcome((type(e).__name__, getattr(e, "lineno", 0), str(getattr(e, "message", ""))[:30]))
    if msg:
        return "%r: %s" % (src, msg)
    if wrap and syntax == "tonnikala" and expected(frs) == "reject" and e is None:
        return "%r was accepted" % src


def gen_fragments(depth, wraps=(True,), syntaxes=("tonnikala",), only=None):
    idx = [i for i, (s, k) in enumerate(FRAGMENTS) if only is None or only(s, k)]

    def g(choose):
        w = choose(wraps)
        s = choose(syntaxes)
        n = 1 + choose(depth)
        return w, s, tuple(choose(idx) for _ in range(n))
    return g


# (source, line of the offending construct relative to the first)
BAD = [
    ("<py:foo/>", 0), ("<py:foo\n a='1'/>", 0), ("<i\n py:foo='1'/>", 1), ("<i a='1'\n b='2'\n py:foo='1'/>", 2), ("<py:if/>", 0), ("<py:for a='\n'/>", 0), ("<py:def/>", 0), ("<py:with/>", 0), ("<py:block/>", 0), ("<py:replace/>", 0),
    ("<py:import\n href='x'/>", 0), ("x\n<py:import alias='x'/>", 1),
    ("${a b}", 0), ("x\ny ${a b}", 1), ("$a\n${b}\n${a b}", 2), ("${(a\n +)}", 1), ("${[1,\n 2,\n 3 3]}", 2), ("${a", 0), ("x\n$a[1\n", 1), ("${'}", 0), ("${}", 0), ("$a ${f(\n\n1+)}", 2), ("$a(\n1 1)", 1), ("$a[\n1 1]", 1),
    ("<i c='${a b}'/>", 0), ("<i\nc='${a b}'/>", 1), ("<i c='x\n${a b}'/>", 1), ("<i c='x\n\n'\nd='$a\n${a b}'/>", 4), ("<i c='${(a\n +)}'/>", 1), ("<i c='${a'/>", 0),
    ("<i py:if='a b'/>", 0), ("<i\npy:if='a b'/>", 1), ("<i py:if='(a\n+)'/>", 1), ("<py:if\ntest='a b'>x\n</py:if>", 1), ("<py:if test='(a\n+)'>x\n</py:if>", 1),
    ("<i\npy:unless='a b'/>", 1), ("<py:unless a='1'\ntest='a b'/>", 1),
    ("<i py:for='a'/>", 0), ("<i\npy:for='a in'/>", 1), ("<py:for\neach='a in (b\n+)'/>", 2), ("<i py:for='None in x'/>", 0), ("<i\n\npy:for='a+1 in x'/>", 2),
    ("<i py:def='f('/>", 0), ("<i\npy:def='f(a b)'/>", 1), ("<py:def\nfunction='f(a,\n+)'/>", 2), ("<py:def function='f(a, a)'>\n\n</py:def>", 0), ("<py:def\nfunction='1(a)'>\n\n</py:def>", 1),
    ("<i py:with='a=b c'/>", 0), ("<i\npy:with='a=1;b=c d'/>", 1), ("<py:with\nvars='a=1\nb=c d'/>", 2), ("<py:vars\nnames='a=b c'/>", 1), ("<i py:with='None=1'/>", 0),
    ("<i\npy:strip='a b'>x</i>", 1), ("<i\npy:content='a b'/>", 1), ("<i\npy:replace='a b'/>", 1), ("<py:replace\nvalue='a b'/>", 1), ("<i\npy:attrs='a b'/>", 1), ("<i a='1'\npy:attrs='{\n1 2}'/>", 2), ("<i py:content='(\n1 2)'/>", 1),
    ("<?py if?>", 0), ("<?py\n\n x = = 1\n?>", 2), ("<?py a = 1\nb = ?>", 1), ("<?py\na = 1\nNone = 2\n?>", 2), ("<?py\na = 1\nfrom os import *\n?>", 2), ("<?py\nif a:\nb = 1\n?>", 2), ("<?py\na = '\n?>", 1), ("<?py?>", 0),
    ("<b>\n</i>", 1), ("<b>\n<i>\n\n</b></i>", 3), ("&foo;", 0), ("x\n&foo; $a", 1), ("<i\n\n>&#99999999;</i>", 2), ("x\n<![CDATA[x]]>", 1), ("x\n<![foo\n]>", 1), ("<b\n></c>", 1),
    ("\n<py:block name='a b'/>", 1), ("<i\npy:block='1a'>\n</i>", 1),
]
# what stands before it; all of them are valid
BEFORE = [
    "", "\n", "x\ny $a\n", "<!--\n\n-->", "<!--!\n-->\n", "<b\nc='1'\nd='2\n3'>\n</b>", "${a(\n1,\n2)}\n", "<?py\nzx = 1\n?>", "<script>\n\n</script>", "<script>\n$a\n</script>", "<i py:if='(a\n and b)'>\n</i>", "&amp;\n&lt;\n", "x\n$$\n", "\r\n\r\n",
    "<i\npy:for='za in b'\npy:with='zc = 1;\nzd = 2'>\n</i>", "<py:def function='fb(a,\nb)'>\n$a\n</py:def>", "<py:block name='kb'>\nx\n</py:block>", "<br\n/>\n", "<i a='$b\n${\nc\n}\n'/>", "${'''\n\n'''}", "<i py:content='(\na)'\n/>", "<i py:attrs='{\n}'/>", "<style>\n</style>", "<textarea>\n$a</textarea>", "<py:import href='x'\nalias='y'/>",
]
# (before, after, lines before)
HOSTS = [("<r>", "</r>"), ("<!DOCTYPE html>\n<r\n>", "</r>"), ("<r><py:if\ntest='a'>", "</py:if></r>"), ("<r><py:for each='a in b'>\n<b>", "</b></py:for></r>"), ("<r><py:def function='g(\n)'>\n", "\n</py:def></r>"),
         ("<r><py:block name='m'><i py:strip='a\n'>", "</i></py:block></r>"), ("<py:extends href='x'>\n<py:block name='n'>\n", "</py:block></py:extends>"), ("<r py:with='a=1;\nb=2'><i><py:unless test='b'>", "</py:unless></i></r>"), ("<r py:def='f(a)' py:if='a\n'>", "</r>")]


BAD_TAL = [
    ("<i\ntal:condition='a b'/>", 1), ("<i\ntal:repeat='a b'/>", 1), ("<i\n\ntal:repeat='None in y'/>", 2), ("<i\ntal:content='(\n1 2)'/>", 2), ("<i tal:replace='a b'/>", 0), ("<i\ntal:omit-tag='a b'>x</i>", 1), ("<i\ntal:attrs='a b'/>", 1), ("<i c='x\n${a b}'/>", 1),
    ("x\n${a b}", 1), ("x\n<?py x?>", 1), ("<tal:replace\n/>", 0), ("x\n&foo;", 1), ("<b>\n</c>", 1), ("${(a\n+)}", 1), ("${a", 0), ("$a\n$a[", 1),
]
BEFORE_TAL = ["", "\n", "x\ny $a\n", "<!--\n\n-->", "<b\nc='1'\nd='2\n3'>\n</b>", "${a(\n1,\n2)}\n", "<script>\n$a\n</script>", "<i tal:condition='(a\n and b)'>\n</i>", "<i\ntal:repeat='a in b'\ntal:omit-tag=''>\n</i>", "&amp;\n&lt;\n", "<i tal:content='(\na)'\n/>"]
HOSTS_TAL = [("<r>", "</r>"), ("<!DOCTYPE html>\n<r\n>", "</r>"), ("<r tal:condition='a\n'><b>", "</b></r>"), ("<r\ntal:repeat='a in b'>\n", "</r>"), ("<r><i tal:omit-tag='a\n'>", "</i></r>")]


def run_place(case):
    h, b, x = case
    return check_place(HOSTS[h], "".join(BEFORE[i] for i in b), BAD[x])


def run_tal(case):
    h, b, x = case
    return check_place(HOSTS_TAL[h], "".join(BEFORE_TAL[i] for i in b), BAD_TAL[x], syntax="chameleon")


def run_far(case):
    f, n, x = case
    return check_place(HOSTS[0], FAR[f] * n, BAD[x])


FAR = ["\n", "<b>\n</b>", "$a\n", "${\na}", "x" * 200 + "\n", "<i a='$b\n${c}'/>"]


def gen_far(sizes):
    def g(choose):
        return choose(len(FAR)), choose(sizes), choose(len(BAD))
    return g


def check_place(host, before, bad, **kw):
    pre, post = host
    text, line = bad
    before = pre + before
    src = before + text + "\n" + post + "\n"
    want = before.count("\n") + 1 + line
    e, msg = load(src, **kw)
    src = src if len(src) < 3000 else src[:100] + " [...] " + src[-500:]
    if msg:
        return "%s\n%s" % (src, msg)
    if e is None:
        return "%s\nwas accepted" % src
    core.outcome((e.lineno, e.message[:30]))
    if e.lineno != want:
        return "%s\nis reported for line %d instead of %d: %s" % (src, e.lineno, want, e.message)


def gen_place(depth, hosts=HOSTS, befores=BEFORE, bad=BAD):
    def g(choose):
        h = choose(len(hosts))
        n = choose(depth + 1)
        return h, tuple(choose(len(befores)) for _ in range(n)), choose(len(bad))
    return g


# expressions, and what Python says of them
EXPR_ALPHABET = ["a", "1", "(", ")", "[", "]", "{", "}", "'", ".", ",", ":", "=", "+", " ", "\n", "#", "not ", "lambda ", "*", "f'", "\\", "if ", "else "]
CONTEXTS = {
    "text": ("<r>\n${%s}</r>", None), "attr": ("<r>\n<i c=\"${%s}\"/></r>", None),
    "if": ("<r>\n<i py:if=\"%s\"/></r>", "(%s\n)"), "content": ("<r>\n<i py:content=\"%s\"/></r>", None), "strip": ("<r>\n<i py:strip=\"%s\">x</i></r>", "(%s\n)"), "attrs": ("<r>\n<i py:attrs=\"%s\"/></r>", "(%s\n)"),
    "for": ("<r>\n<i py:for=\"%s\"/></r>", "for %s: pass"), "each": ("<r>\n<i py:for=\"x in %s\"/></r>", "for x in (%s\n): pass"), "def": ("<r>\n<i py:def=\"%s\"/></r>", "def %s: pass"), "params": ("<r>\n<i py:def=\"f(%s)\"/></r>", "def f(%s\n): pass"),
    "with": ("<r>\n<i py:with=\"%s\"/></r>", "%s"), "value": ("<r>\n<i py:with=\"x=%s\"/></r>", "x=%s"), "pi": ("<r>\n<?py\n%s\n?></r>", "%s"),
}


def is_python(code):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            compile(code, "x", "exec")
            return True
        except (SyntaxError, ValueError):
            return False


def run_expr(case):
    kind, parts = case
    text = "".join(parts)
    pattern, python = CONTEXTS[kind]
    src = pattern % text
    e, msg = load(src)
    core.outcome((type(e).__name__, getattr(e, "lineno", 0), str(getattr(e, "message", ""))[:30]))
    if msg:
        return "%s\n%s" % (src, msg)
    if e is None and python and not is_python(python % text) and not is_python(python % text.strip()) and not (kind == "def" and (is_python("def %s(): pass" % text.strip()) or is_python("def %s(): pass" % text))):
        return "%s\nwas accepted, but is not valid Python" % src
    if e is not None and e.lineno < 2:
        return "%s\nis reported for line %d: %s" % (src, e.lineno, e.message)


def gen_expr(depth, kinds):
    def g(choose):
        k = choose(kinds)
        return k, tuple(choose(EXPR_ALPHABET) for _ in range(1 + choose(depth)))
    return g


# runs of line ends and of other characters (@) in every place before a failing call
LONG = [
    "<r>@<b>${§0boom()}</b></r>", "@<r>${§0boom()}</r>", "<r><b>@</b>\n${§0boom()}@</r>", "<r><i@c='${§0boom()}'/></r>", "<r><i c='1'@d='${§0boom()}'/></r>", "<r><i c='@'\nd='${§0boom()}'/></r>",
    "<r><i c='@${§0boom()}'/></r>", "<r><i c='$c@$c@x$§0boom()'/></r>", "<r>${(@§0boom())}</r>", "<r>${ok(1,@2)}\n${§0boom()}</r>", "<r>${ok(QQQ@QQQ)}\n${§0boom()}</r>", "<r>${ok(QQQ@QQQ, §0boom())}</r>",
    "<r><?python @\nx = §0boom() ?></r>", "<r><?python x = 1@\n?>\n$§0boom()</r>", "<r><?python\nx = (@§0boom()) ?></r>", "<r><!--@-->$§0boom()</r>", "<!--@--><r>$§0boom()</r>", "<r><!--!@-->\n$§0boom()</r>",
    "<r><script>@$c@${§0boom()}</script></r>", "<r@><b@>${§0boom()}</b@>\n</r@>", "<r><b@/>$c<b></b@>${§0boom()}</r>", "<r><py:if test='(@a)'>$c\n$§0boom()</py:if></r>", "<r><i py:if='(@§0boom())'/></r>",
    "<r><py:def function='g(@x)'>\n$x${§1boom()}</py:def>@$c${§0g(1)}</r>", "<r><py:def function='g(x=(@1))'>@$x${§1boom()}</py:def>\n${§0g(1)}</r>", "<r><i py:for='x in (@b)'>\n${§0boom()}</i></r>",
    "<r><py:with vars='x=1;@y=2'>\n${§0boom()}</py:with></r>", "<r><py:block name='bb'>@${§0boom()}</py:block></r>", "<r><i py:strip='(@a)'>\n${§0boom()}</i></r>", "<r><i py:attrs='(@e)'>\n${§0boom()}</i></r>",
    "<r><i@c='1'@d@e='2'@py:content='§0boom()'/></r>", "<!DOCTYPE@html><r>\n${§0boom()}</r>", "<r>&amp;@&lt;${§0boom()}</r>", "<r>a$$b@$$${§0boom()}</r>",
]
LONG = [x.replace("QQQ", '"' * 3) for x in LONG]
FILLS = ["\n", " ", "\r\n", "\n \n", "\t\n"]

# characters that some functions regard as the end of a line, or that take more than one unit
SEPARATORS = ["\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x85", "\u2028", "\u2029", "\xa0", "\ufeff", "\xe9", "\u4e00", "\U0001f600", "e\u0301", "\x1b", "\x7f"]
SEPARATED = ["C", "C\n", "\nC", "C\nC\nC", "CCC\n \n"]


# not within tags, nor in expressions other than within strings
SEP_PLACES = [i for i, x in enumerate(LONG) if not re.search(r"<[^>!']*@|'@d|DOCTYPE|\(@|[;,1n]@|^@", x.replace("<r>@", ">@"))]


def gen_separators(choose):
    return choose(SEP_PLACES), choose(SEPARATED).replace("C", choose(SEPARATORS)), 1, choose(("a b", "ok(]", "1 1 1"))


def gen_long(sizes):
    return lambda choose: (choose(len(LONG)), choose(FILLS), choose(sizes), choose(("a b", "ok(]", "1 1 1")))


def run_long(case):
    x, fill, n, bad = case
    src = LONG[x].replace("$\u00a70boom()", "${\u00a70boom()}").replace("@", fill * n)
    for d in "01":
        if "\u00a7%sboom()" % d in src:
            before, after = src.split("\u00a7%sboom()" % d)
    src, want = before + bad + after, before.count("\n") + 1
    for d in "0!":
        src = src.replace("\u00a7" + d, "")
    e, msg = load(src)
    if not msg and e is None:
        msg = "was accepted"
    if not msg:
        core.outcome((e.lineno, e.message[:30]))
        if e.lineno != want:
            msg = "is reported for line %d instead of %d: %s" % (e.lineno, want, e.message)
    if msg:
        return "%s\nwith %d %r for @ and %s as the call: %s" % (LONG[x], n, fill, bad, msg)


# numeric references
CODES = [0, 1, 9, 10, 38, 60, 127, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10ffff] + [0x110000, 0x110001] + [2 ** k + d for k in (21, 24, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 1000) for d in (-1, 0, 1)] + [10 ** 4299, 10 ** 4300, 10 ** 5000]
REF_FORMS = ["&#%d;", "&#x%x;", "&#X%X;", "&#0%d;", "&#x000%x;"]
REF_PLACES = [("<r>\n%s</r>", 2), ("<r>\nx%s<b/>\n</r>", 2), ("<r><b>\n\n</b>$a %s</r>", 3), ("<r>%s\n</r>", 1), ("<r>\n<script>%s</script></r>", None), ("<r\na='%s'/>", None), ("<r\na='$a %s'/>", None), ("<!--%s--><r/>", None)]


def gen_codes(choose):
    return choose(len(CODES)), choose(REF_FORMS), choose(len(REF_PLACES)), choose(("tonnikala", "chameleon"))


def run_codes(case):
    import sys
    c, form, p, syntax = case
    limit = sys.get_int_max_str_digits()
    sys.set_int_max_str_digits(0)
    text = form % CODES[c]
    sys.set_int_max_str_digits(limit)
    place, line = REF_PLACES[p]
    e, msg = load(place % text, **({} if syntax == "tonnikala" else {"syntax": syntax}))
    short = text if len(text) < 60 else text[:20] + "...(%d characters)" % len(text)
    core.outcome((p, e is None))
    if not msg and line and CODES[c] > 0x10ffff:
        if e is None:
            msg = "was accepted"
        elif e.lineno != line:
            msg = "is reported for line %d" % e.lineno
    if msg:
        return "%s with %s\n%s" % (place, short, msg)


def gen_source(choose):
    from mc import c19
    return c19.gen_source(choose) + (choose(("a b", "1 +", "(")),)


def run_source(case):
    """an invalid expression in every way to write attributes; the place is marked as in C19"""
    name, before, equals, quote, value, end, bad = case
    control = name.lower().startswith("py:")
    text = "\u00a70" + bad if control else value.replace("\u00a70", "${\u00a70" + bad + "}")
    if not quote:
        text = text.replace(" ", "")
        if bad == "a b":
            return None
        end = " />" if end == "/>" else end
    src = "<r>\n" + before + name + equals + quote + text + quote + end.replace("</", "</" + before.split()[0][1:]) + "</r>"
    line = src.partition("\u00a7")[0].count("\n") + 1
    src = src.replace("\u00a70", "")
    e, msg = load(src)
    if msg or e is None:
        return "%s\n%s" % (src, msg or "was accepted")
    core.outcome(e.lineno)
    # where an unclosed bracket is found only at the end of the attribute, that line will do too
    if e.lineno != line and not (bad == "(" and line < e.lineno <= line + 1):
        return "%s\nis reported for line %d instead of %d: %s" % (src, e.lineno, line, e.message)


# ------------------------------------------------ names that are no constructs
CONSTRUCTS = "if unless for def block with vars strip content replace attrs import extends".split()


def gen_names(choose):
    from mc import names
    kind = choose(("attribute", "element"))
    if kind == "element":
        name = choose([t for t in sorted(set(names.TAGS + names.ATTRS)) if t[0].isalpha() and t not in CONSTRUCTS and t not in ("else", "svg:g", "xml:lang", "xlink:href", "xmlns:svg") and "." not in t])
    else:
        name = choose([t for t in sorted(set(names.TAGS + names.ATTRS)) if t not in CONSTRUCTS])
    return kind, name, choose(("tonnikala", "chameleon")), choose(range(4))


def run_names(case):
    kind, name, syntax, form = case
    p = "py:" if syntax == "tonnikala" else "tal:"
    if kind == "attribute":
        src = ["<r>\n<p %s='a'>x</p></r>", "<r>\n<br\n %s='a'/></r>", "<r>\n\n<p id='x' %s=''>x</p></r>", "<r>\n<i " + ("py:if" if p == "py:" else "tal:condition") + "='a' %s='a'/></r>"][form] % (p + name)
    else:
        src = ["<r>\n<%s/></r>", "<r>\n<%s a='1'>x\n</%s></r>", "<r>\n\n<%s test='a' each='x in a'></%s></r>", "<r>\n<i " + ("py:if" if p == "py:" else "tal:condition") + "='a'><%s/></i></r>"][form].replace("%s", p + name)
    e, msg = load(src, syntax=syntax)
    core.outcome((type(e).__name__, getattr(e, "lineno", 0)))
    if msg:
        return "%r: %s" % (src, msg)
    if syntax == "chameleon":
        return None                 # leaves names that it does not know as they are
    if e is None:
        return "%r was accepted" % src
    if e.lineno not in ((3,) if form == 2 else (2, 3) if form == 1 and kind == "attribute" else (2,)):
        return "%r was rejected for line %r" % (src, e.lineno)


# ------------------------------------------------ constructs with nothing as their argument
EMPTY = ("", "=''", '=""', "=' '", "='\n'", " = ''", "\n=\n'\t'")
EMPTY_ATTRS = {"if": 1, "unless": 1, "for": 1, "def": 1, "block": 1, "replace": 1, "with": 0, "vars": 0, "strip": 0, "content": 0, "attrs": 0,
               "condition": 1, "repeat": 1, "omit-tag": 0}
EMPTY_ELEMENTS = {"if": ("test",), "unless": ("test",), "for": ("each",), "def": ("function",), "block": ("name",), "replace": ("value",), "with": ("vars",), "vars": ("names",),
                  "import": ("href", "alias"), "extends": ("href",)}
EMPTY_TAL = ("condition", "repeat", "content", "replace", "omit-tag", "attrs")


def gen_empty(choose):
    syntax = choose(("tonnikala", "chameleon"))
    kind = choose(("attribute", "element")) if syntax == "tonnikala" else "attribute"
    if kind == "element":
        name = choose(sorted(EMPTY_ELEMENTS))
        return syntax, kind, name, choose(EMPTY_ELEMENTS[name]), choose(EMPTY), choose(("></%s>", "/>", ">x</%s>")), choose(("", "a='1'", "b"))
    return syntax, kind, choose(EMPTY_TAL if syntax == "chameleon" else [k for k in sorted(EMPTY_ATTRS) if k not in ("condition", "repeat", "omit-tag")]), choose(("p", "input", "script")), choose(EMPTY), choose(("></%s>", "/>", ">x</%s>")), choose(("", "a='1'", "b"))


def run_empty(case):
    syntax, kind, name, a, value, end, other = case
    p = "py:" if syntax == "tonnikala" else "tal:"
    if kind == "attribute":
        src = "<%s\n %s\n%s%s%s%s" % (a, other, p, name, value, "\n")
        end = "/>" if a == "input" else end
        reject = EMPTY_ATTRS[name]
        tag = a
    else:
        tag = p + name
        rest = {"import": "alias='z'" if a == "href" else "href='x'"}.get(name, "")
        src = "<%s %s\n %s\n%s%s%s" % (tag, rest, other, a, value, "\n")
        reject = EMPTY_ATTRS.get(name) or a == "alias"
    src += end.replace("%s", tag)
    at = 1 if name == "extends" else 2
    if name != "extends":
        src = "<r>\n%s</r>" % src
    e, msg = load(src, syntax=syntax)
    core.outcome((type(e).__name__, getattr(e, "lineno", 0), str(getattr(e, "message", ""))[:30]))
    if name == "extends" and msg and ("FileNotFoundError" in msg or "IsADirectoryError" in msg):
        return None
    if not msg and e is None and reject:
        msg = "was accepted"
    # the line of the element or of the attribute
    if not msg and e is not None and not at <= e.lineno <= at + src.count("\n"):
        msg = "is reported for line %d" % e.lineno
    if msg:
        return "%s\n%s" % (src, msg)


# ------------------------------------------------ constructs on the elements of constructs
MIX_ELEMENTS = {"if": "test='a'", "unless": "test='a'", "for": "each='a in b'", "def": "function='g()'", "block": "name='k'", "replace": "value='a'", "with": "vars='a=1'", "vars": "names='a=1'",
                "import": "href='x' alias='z'", "extends": "href='x'", "-": ""}
MIX_ATTRS = {"if": ("a", "a b", "0", ""), "unless": ("a", "a b"), "for": ("a in b", "a"), "def": ("h(a)", "h("), "block": ("m", "1"), "replace": ("a", "a+", "1"), "with": ("a=1", "a=b c"), "vars": ("a=1", "="),
             "strip": ("a", "a b", "1", ""), "content": ("a", "a+", "1"), "attrs": ("a", "{"), "test": ("a",), "each": ("a in b",), "foo": ("a",), "-": ("",)}
MIX_BAD = {("if", "a b"), ("if", ""), ("unless", "a b"), ("for", "a"), ("def", "h("), ("block", "1"), ("replace", "a+"), ("test", "a"), ("each", "a in b"), ("foo", "a")}
MIX_CONTENTS = ["", "x", "\n", "<!--c-->", "<b/>", "$a", "<?py a = 1?>", "<py:if test='a'>x</py:if>", "<py:def function='q()'>x</py:def>", "<py:block name='w'>x</py:block>", "<py:import href='x' alias='y'/>", "<py:extends href='x'/>"]
MIX_HOSTS = [("<r>\n", "\n</r>"), ("", ""), ("<py:if test='a'>", "</py:if>"), ("<py:extends href='x'>", "</py:extends>"), ("<r><b py:for='i in a'>", "</b></r>"), ("<r><py:def function='u()'>", "</py:def></r>")]
MIX_ALIASES = ["None", "True", "class", "a-b", "a.b", "a()", "1", "", " ", "a b", "a,b", "*", "\xbd"]


def gen_mixed(attrs):
    def g(choose):
        syntax = "tonnikala"
        el = choose(sorted(MIX_ELEMENTS))
        rv = []
        for i in range(attrs):
            k = choose([k for k in sorted(MIX_ATTRS) if k == "-" or k not in [x for x, v in rv] and (not rv or rv[-1][0] < k and rv[-1][0] != "-")])
            rv.append((k, choose(MIX_ATTRS[k])))
        return syntax, choose(MIX_HOSTS), el, tuple(rv), choose(MIX_CONTENTS)
    return g


def run_mixed(case):
    syntax, host, el, attrs, contents = case
    tag = "r" if el == "-" else "py:" + el
    a = MIX_ELEMENTS[el] + "".join(" py:%s='%s'" % kv for kv in attrs if kv[0] != "-")
    src = host[0] + "<%s %s>%s</%s>" % (tag, a, contents, tag) + host[1]
    full = src if syntax == "tonnikala" else src.replace("py:", "js:").replace("<?py", "<?js")
    kw = {} if syntax == "tonnikala" else dict(syntax=syntax)
    e, msg = load(full, **kw)
    core.outcome((type(e).__name__, getattr(e, "lineno", 0), str(getattr(e, "message", ""))[:30]))
    if msg:
        return "%s\n%s" % (full, msg)
    if e is None and any(kv in MIX_BAD for kv in attrs) and "py:extends" not in full and ("if", "0") not in attrs:
        return "%s\nwas accepted" % full
    if e is None and el == "import" and (contents not in ("", "\n", "<!--c-->") or any(k not in ("-", "strip", "content", "attrs", "with", "vars") for k, v in attrs)):
        return "%s\nwas accepted" % full


def gen_alias(choose):
    return choose(MIX_HOSTS[:4]), choose(MIX_ALIASES), choose(("<py:import href='x' alias='%s'/>", "<py:import\nhref='x'\nalias='%s'></py:import>", "<py:import alias='%s' href='x'> <!--c--> </py:import>")), choose(("", "<b>\n</b>", "<py:import href='x' alias='a'/>\n"))


def run_alias(case):
    host, alias, form, before = case
    src = host[0] + (before if "extends" not in host[0] or "import" in before else "") + form % alias + host[1]
    e, msg = load(src)
    core.outcome((type(e).__name__, getattr(e, "lineno", 0)))
    if not msg and e is None:
        msg = "was accepted"
    first = src[:src.rindex("<py:import")].count("\n") + 1
    if not msg and not first <= e.lineno <= first + form.count("\n"):
        msg = "is reported for line %d" % e.lineno
    if msg:
        return "%s\n%s" % (src, msg)


# ------------------------------------------------ every element and attribute
def gen_where(choose):
    from mc import names
    kind = choose(("attribute", "element"))
    bad = choose(("${a b}", "$a(", "${", "${a}\n${1 +}", "x $a.b(\n"))
    return kind, choose(names.ATTRS if kind == "attribute" else [t for t in names.HTML if t not in ("script", "style")]), bad, choose(("p", "input") if kind == "attribute" else ("",))


def run_where(case):
    kind, name, bad, tag = case
    src = "<r>\n<%s\n%s='%s'/></r>" % (tag, name, bad) if kind == "attribute" else "<r>\n<%s\n>%s</%s></r>" % (name, bad, name)
    e, msg = load(src)
    core.outcome((type(e).__name__, getattr(e, "lineno", 0)))
    if msg:
        return "%r: %s" % (src, msg)
    if e is None:
        return "%r was accepted" % src
    line = 3 + (bad.startswith("${a}\n") and 1)
    if e.lineno != line and bad != "x $a.b(\n":
        return "%r was rejected for line %r instead of %d" % (src, e.lineno, line)


def suites(tier):
    deep = tier == "thorough"
    kinds = sorted(CONTEXTS)
    some = ("x", "\n", " $a", "<b>", "</b>", "<py:if test='a'>", "</py:if>", "${", "${a", "{", "}", "'", "<", "<b ", "&", "<!--c-->", "<br>", "<i py:for='a in b'>x</i>", "<py:def function='f(a)'/>", "<?py a = 1\n?>", "<?", "</", "<script>", "<b c='", "<i py:foo='1'/>", "${a b}")
    return [
        core.Suite("attribute_source", gen_source, run_source, "the ways in which an attribute with an invalid expression and those before it can be written"),
        core.Suite("names", gen_names, run_names, "every HTML name in the namespace of the constructs"),
        core.Suite("elements", gen_where, run_where, "invalid expressions in every HTML element and attribute"),
        core.Suite("empty", gen_empty, run_empty, "every construct with nothing as its argument, or without any value"),
        core.Suite("mixed", gen_mixed(2 if deep else 1), run_mixed, "constructs as attributes of the elements of constructs, with every kind of contents, in every host"),
        core.Suite("aliases", gen_alias, run_alias, "import aliases that are not names"),
        core.Suite("pairs", gen_fragments(2, (True, False)), run_fragments, "every sequence of two fragments, in a root element or not"),
        core.Suite("triples", gen_fragments(3) if deep else gen_fragments(3, only=lambda s, k: s in some), run_fragments, "every sequence of three fragments in a root element"),
        core.Suite("chameleon", gen_fragments(2, (True, False), ("chameleon",)), run_fragments, "fragments in Chameleon syntax"),
        core.Suite("placement", gen_place(2 if deep else 1), run_place, "every invalid construct after every combination of valid ones in every host: rejected for its line"),
        core.Suite("placement_chameleon", gen_place(2, HOSTS_TAL, BEFORE_TAL, BAD_TAL), run_tal, "the same in Chameleon syntax"),
        core.Suite("far", gen_far((260, 3000) if deep else (260,)), run_far, "invalid constructs after many lines"),
        core.Suite("separators", gen_separators, run_long, "invalid expressions after characters that some functions regard as the end of a line"),
        core.Suite("long", gen_long((1, 2, 3, 5, 300, 1025, 4500, 33000, 66000) if deep else (1, 3, 300, 66000)), run_long, "invalid expressions after runs of line ends or spaces in every place"),
        core.Suite("character_codes", gen_codes, run_codes, "numeric references of every magnitude"),
        core.Suite("expressions", gen_expr(4 if deep else 3, kinds), run_expr, "every string over an alphabet of tokens as every kind of expression"),
    ]
