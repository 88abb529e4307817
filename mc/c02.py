"""C02: static markup is reproduced faithfully."""
import re

from mc import core, names, py, sizes, tk
from mc.c01 import el

# (source, output) pieces of element content
TEXT = [
    ("a", "a"), (" ", " "), ("\n", "\n"), ("\t", "\t"), ("&amp;", "&amp;"), ("&lt;", "&lt;"), ("&gt;", "&gt;"),
    ("&quot;", "&#34;"), ("&#39;", "&#39;"), ("&#65;", "A"), ("&#x3c;", "&lt;"), ("&#38;", "&amp;"), ("&nbsp;", "\xa0"),
    ("&eacute;", "\u00e9"), ("\u00e9", "\u00e9"), ("\U0001f600", "\U0001f600"), ('"', "&#34;"), ("'", "&#39;"), (">", "&gt;"),
    (" & ", " &amp; "), ("$ ", "$ "), ("}", "}"), ("&amp;lt;", "&amp;lt;"), ("&copy;", "\xa9"), ("&#x1F600;", "\U0001f600"),
]
MARKUP = [
    ("<br/>", "<br />"), ("<br>", "<br />"), ("<b>x</b>", "<b>x</b>"), ("<b/>", "<b></b>"), ("<b> </b>", "<b> </b>"),
    ("<!-- c -->", "<!-- c -->"), ("<!--! d -->", ""), ("<!--<b>&amp;\"&--", None), ("<!---->", "<!---->"),
    ("<!--<b>&amp;\"& '-->", "<!--<b>&amp;\"& '-->"),
    ("<script>a<b&&c>'\"&amp;</script>", "<script>a<b&&c>'\"&amp;</script>"),
    ("<style>p > a {}</style>", "<style>p > a {}</style>"), ("<script></script>", "<script></script>"),
    ('<img src="&amp;">', '<img src="&amp;" />'), ('<i a="1" b="&lt;">&amp;</i>', '<i a="1" b="&lt;">&amp;</i>'),
    ("<p><i><u>&lt;</u>t</i>s</p>", "<p><i><u>&lt;</u>t</i>s</p>"), ("<textarea>\n&lt;</textarea>", "<textarea>\n&lt;</textarea>"),
    ("<title>t&amp;</title>", "<title>t&amp;</title>"), ('<py:if test="1">z</py:if>', "z"), ('<py:if test="0">z</py:if>', ""),
    ("<py:if test=\"'&lt;'\"><br/></py:if>", "<br />"), ('<b py:strip="True">s&amp;</b>', "s&amp;"), ("${chr(60)}", "&lt;"),
    ('<input disabled>', "<input disabled />"), ("<x-y.z>u</x-y.z>", "<x-y.z>u</x-y.z>"),
]
MARKUP = [m for m in MARKUP if m[1] is not None]
ATTR = [
    ("a", "a"), (" ", " "), ("\n", "\n"), ("&amp;", "&amp;"), ("&lt;", "&lt;"), ("&gt;", "&gt;"), (">", "&gt;"), ("<", "&lt;"),
    ("&quot;", "&#34;"), ("&#39;", "&#39;"), ("&#65;", "A"), ("&nbsp;", "\xa0"), ("\u00e9", "\u00e9"), (" & ", " &amp; "),
    ("/", "/"), ("=", "="), ("$ ", "$ "), ("}", "}"), ("OTHERQUOTE", None), ("&amp;lt;", "&amp;lt;"), ("${chr(60)}", "&lt;"),
    ("&eacute;", "\u00e9"), ("//x?b=1", "//x?b=1"),
]
RAW = ["a", "<", "&", "&amp;", '"', "'", ">", "</b>", "<b>", "<!--", "-->", "]]>", "\n", "&&", "//", "<![CDATA[", "&#65;", "$ ",
       "</", "\\", "\u00e9", "</scrip>", "<!doctype x>", "<?x?>"]


def gen_seq(pieces, n):
    def gen(choose):
        return tuple(choose(len(pieces)) for _ in range(choose(n)))
    return gen


PIECES = TEXT + MARKUP


def check(src, want, **kw):
    got = py.render(py.load1(src, **kw), {})
    core.outcome(got)
    if got != ("ok", want):
        return "%r\n  gives    %r\n  expected %r" % (src, got, want)


def run_seq(case):
    src = "".join(PIECES[i][0] for i in case)
    want = "".join(PIECES[i][1] for i in case)
    return check("<html>%s</html>" % src, "<html>%s</html>" % want)


def run_seq_nested(case):
    if not case:
        return None
    a, b = case[:1], case[1:]
    s1, w1 = ("".join(PIECES[i][k] for i in a) for k in (0, 1))
    s2, w2 = ("".join(PIECES[i][k] for i in b) for k in (0, 1))
    return check("<html><p>%s</p>%s<div>%s</div></html>" % (s1, s2, s2), "<html><p>%s</p>%s<div>%s</div></html>" % (w1, w2, w2))


def gen_attr(n):
    def gen(choose):
        return choose('"\''), tuple(choose(len(ATTR)) for _ in range(choose(n))), choose(("p", "br", "script", "svg:g"))
    return gen


def run_attr(case):
    quote, seq, tag = case
    other = {'"': "'", "'": '"'}[quote]
    src = "".join(other if ATTR[i][1] is None else ATTR[i][0] for i in seq)
    want = "".join(tk.escape(other) if ATTR[i][1] is None else ATTR[i][1] for i in seq)
    return check("<html><%s k=%s%s%s></%s></html>" % (tag, quote, src, quote, tag) if tag != "br" else
                 "<html><br k=%s%s%s></html>" % (quote, src, quote),
                 '<html><%s k="%s"></%s></html>' % (tag, want, tag) if tag != "br" else '<html><br k="%s" /></html>' % want)


ATTRS = [('a="1"', ' a="1"'), ("b='2'", ' b="2"'), ("c=3", ' c="3"'), ("d", " d"), ('e=""', ' e=""'), ('xml:lang="x"', ' xml:lang="x"'),
         ('data-f="&amp;"', ' data-f="&amp;"'), ('g = "y"', ' g="y"'), ("h='\"'", ' h="&#34;"'), ('_i="_"', ' _i="_"'), ("j.k='1'", ' j.k="1"'),
         ("@l='m'", ' @l="m"'), (":n='o'", ' :n="o"'), ("onclick=\"f('&lt;') &amp;&amp; g\"", ' onclick="f(&#39;&lt;&#39;) &amp;&amp; g"')]


def gen_attrs(n):
    def gen(choose):
        left = list(range(len(ATTRS)))
        seq = []
        for _ in range(choose(n)):
            i = choose(left)
            left = [j for j in left if j != i]
            seq.append(i)
        return tuple(seq), choose((" ", "\n", " \t\n ")), choose(("p", "br", "br/", "p/", "script"))
    return gen


def run_attrs(case):
    seq, sep, tag = case
    t = tag.rstrip("/")
    src = "".join(sep + ATTRS[i][0] for i in seq)
    want = "".join(ATTRS[i][1] for i in seq)
    if tag.endswith("/") and seq and ATTRS[seq[-1]][0] == "c=3":
        src += " "                        # the slash would belong to the value
    if t == "br":
        return check("<html><%s%s%s>x</html>" % (t, src, "/" if tag.endswith("/") else ""), "<html><br%s />x</html>" % want)
    if tag == "p/":
        return check("<html><p%s/>x</html>" % src, "<html><p%s></p>x</html>" % want)
    return check("<html><%s%s>x</%s></html>" % (t, src, t), "<html><%s%s>x</%s></html>" % (t, want, t))


def run_raw(case):
    tag = ("script", "style")[len(case) % 2]
    rv = None
    for tag in ("script", "style"):
        s = "<html>&lt;<%s>%s</%s>&lt;</html>" % (tag, "".join(RAW[i] for i in case), tag)
        rv = rv or check(s, s)
    return rv


# ------------------------------- expressions within script and style
# (source, output) where u = <&>, f = F
MIXED = [("a", "a"), ("<", "<"), ("&&", "&&"), ("&amp;", "&amp;"), ('"', '"'), ("'", "'"), ("</b>", "</b>"), ("\n", "\n"), ("]]>", "]]>"), ("-->", "-->"),
         ("${u}", "&lt;&amp;&gt;"), ("$u ", "&lt;&amp;&gt; "), ("${f}", "F"), ("$$", "$"), ("$ ", "$ "), ("${''}", ""), ("${'<b>'}", "&lt;b&gt;"),
         ("${ {'a': '&'}['a'] }", "&amp;"), ("}", "}"), ("{", "{"), ("&lt;", "&lt;")]
AROUND = {"plain": ("%s", "%s"), "el": ("<b>&lt;%s<i/>&amp;</b>", "<b>&lt;%s<i></i>&amp;</b>"), "if": ('<py:if test="1 &lt; 2">&lt;%s&gt;</py:if>', "&lt;%s&gt;"),
          "for": ('<py:for each="i in (1, 2)">%s&lt;</py:for>', None), "def": ('<py:def function="d">%s&lt;</py:def>${d()}${d()}', None),
          "block": ('<py:block name="d">%s&lt;</py:block>', "%s&lt;"), "attr": ("<b title='&lt;${u}&amp;'>%s</b>", '<b title="&lt;&lt;&amp;&gt;&amp;">%s</b>')}
OPENTAG = {"plain": "", "attr": ' type="a&amp;b"', "expr": ' type="$u"', "if": ' py:if="1"', "with": ' py:with="f=\'F\'"', "attrs": ' py:attrs="[]"'}


def gen_mixed(choose):
    return (choose(("script", "style")), choose(sorted(AROUND)), choose(sorted(OPENTAG)),
            tuple(choose(len(MIXED)) for _ in range(choose((1, 2)))))


def gen_mixed3(n):
    def gen(choose):
        return choose(("script", "style")), "plain", "plain", tuple(choose(len(MIXED)) for _ in range(n))
    return gen


def run_mixed(case):
    tag, around, opening, seq = case
    body, out = "".join(MIXED[i][0] for i in seq), "".join(MIXED[i][1] for i in seq)
    if re.search(r"\$\$\$|\$(?:\{|[A-Za-z_])", re.sub(r"\$\{|\$u ", "", body)):
        return None                         # pieces that together mean something else
    a, w = AROUND[around]
    one = "<%s%s>%s</%s>" % (tag, {"attr": ' type="a&amp;b"', "expr": ' type="&lt;&amp;&gt;"'}.get(opening, ""), out, tag)
    w = (one + "&lt;") * 2 if w is None else w % one
    src = "<html>&amp;%s&lt;${u}<%s>%s&lt;</%s>&lt;</html>" % (a.replace("%s", "<%s%s>%s</%s>" % (tag, OPENTAG[opening], body, tag)), tag, "&&", tag)
    want = "<html>&amp;%s&lt;&lt;&amp;&gt;<%s>%s&lt;</%s>&lt;</html>" % (w, tag, "&&", tag)
    got = py.render(py.load1(src), {"u": "<&>", "f": "F"})
    core.outcome(got)
    if got != ("ok", want):
        return "%r\n  gives    %r\n  expected %r" % (src, got, want)


# ---------------------------------------------------- comments, references
COMMENT = ["!", " ", "a", "-", "\n", ">", "<b>", "&amp;", "$x", "${", "]]", "?"]


def gen_comment(n):
    def gen(choose):
        t = "".join(COMMENT[choose(len(COMMENT))] for _ in range(choose(n)))
        # what is not the text of a comment, and white space before the !, which is not specified
        if "--" in t or t.startswith((">", "->")) or t.endswith("-") or (t[:1].isspace() and t.strip().startswith("!")):
            raise core.Skip()
        return t
    return gen


def run_comment(text):
    src = "<!--%s-->" % text
    want = "" if text.startswith("!") else src
    return (check("<p>1%s2</p>" % src, "<p>1%s2</p>" % want) or check("<p>%s<b/>%s%s</p>" % (src, src, src), "<p>%s<b></b>%s%s</p>" % (want, want, want))
            or check(src + "<p/>" + src, want + "<p></p>" + want))


def references():
    from html.entities import html5
    rv = [("&%s" % k, v) for k, v in sorted(html5.items()) if k.endswith(";")]
    for cp in list(range(32, 127)) + list(range(160, 0x3000)) + [9, 10, 0x4e2d, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x1f600, 0x10fffd]:
        for form in ("&#%d;", "&#x%x;", "&#X%X;", "&#%05d;", "&#x%04X;"):
            rv.append((form % cp, chr(cp)))
    return rv


def gen_references(choose):
    return choose(-(-len(REFERENCES) // 40)), choose(("text", "attr", "mixed"))


def run_references(case):
    n, where = case
    refs = REFERENCES[n * 40:n * 40 + 40]
    src, want = "|".join(r for r, c in refs), "|".join(tk.escape(c) for r, c in refs)
    if where == "text":
        return check("<p>%s</p>" % src, "<p>%s</p>" % want)
    if where == "attr":
        return check('<p title="%s"/>' % src, '<p title="%s"></p>' % want)
    return check("<p title='%s'>a${1}%s${2}<b>%s</b></p>" % (src, src, src), '<p title="%s">a1%s2<b>%s</b></p>' % (want, want, want))


# ------------------------------------------------------------------- trees
TAGS = ["p", "div", "br", "script", "td"]


def gen_tree(depth, width):
    def node(choose, d):
        kind = choose(("text", "void", "el", "elattr", "elvoidattr", "comment", "script")
                      if d > 1 else ("text", "void", "comment", "empty", "script"))
        if kind == "text":
            return ("t", "x&<\"")
        if kind == "void":
            return el("br")
        if kind == "elvoidattr":
            return el("img", (("src", (("t", "&<"),)), ("k", None)))
        if kind == "comment":
            return ("raw", "<!-- &amp;< -->", "<!-- &amp;< -->")
        if kind == "script":
            return el("script", (), (), (("t", "1<2&\""),))
        if kind == "empty":
            return el("p")
        kids = tuple(node(choose, d - 1) for _ in range(choose((0, 1, 2) if width > 1 else (0, 1))))
        if kind == "el":
            return el("div", (), (), kids)
        return el("td", (("a", (("t", "'>"),)), ("b", None)), (), kids)

    def gen(choose):
        return el("html", (), (), tuple(node(choose, depth) for _ in range(choose((1, 2)))))
    return gen


def run_tree(case):
    return py.compare({"t": (case,)}, "t", [{}])


# ------------------------------------------------------------------ documents
DOCTYPES = [("", ""), ("<!DOCTYPE html>", "<!DOCTYPE html>"), ("<!doctype html>", "<!DOCTYPE html>"),
            ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">',) * 2,
            ('<!DOCTYPE html SYSTEM "about:legacy-compat">',) * 2,
            ("<!DOCTYPE svg>",) * 2]
MISC = [("", ""), ("<!-- c -->", "<!-- c -->"), ("<!--! c -->", ""), ("\n", ""), ("<!-- a --><!-- b -->", "<!-- a --><!-- b -->"),
        ('<?xml version="1.0"?>', "")]


def gen_doc(choose):
    return choose(len(DOCTYPES)), choose(len(MISC)), choose(len(MISC) - 1), choose(len(MISC) - 1), choose(
        ("<p>x</p>", "<br/>", '<p a="1"/>', "<script>a&b</script>", "<p> <b/> </p>"))


ROOT_OUT = {"<br/>": "<br />", '<p a="1"/>': '<p a="1"></p>', "<p> <b/> </p>": "<p> <b></b> </p>"}


def norm(s):
    """spacing and quotes within the doctype are not compared, nor white space outside the root"""
    s = re.sub(r"<!DOCTYPE[^>]*>", lambda m: re.sub(r"\s+", " ", m.group().replace("'", '"')), s)
    return s.replace("\n", "")


def run_doc(case):
    d, a, b, c, root = case
    src = MISC[a][0] + DOCTYPES[d][0] + MISC[b][0] + root + MISC[c][0]
    want = MISC[a][1] + DOCTYPES[d][1] + MISC[b][1] + ROOT_OUT.get(root, root) + MISC[c][1]
    got = py.render(py.load1(src), {})
    core.outcome(got)
    if got[0] != "ok" or norm(got[1]) != norm(want):
        return "%r\n  gives    %r\n  expected %r" % (src, got, want)


HTML = """a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details
dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup i iframe ins kbd label legend li main
map mark menu meter nav noscript object ol optgroup option output p picture pre progress q rp rt ruby s samp section select slot small
span strong sub summary sup svg table tbody td template textarea tfoot th thead time title tr u ul var video center font math g circle
my-element""".split()
VOIDS = "area base br col embed hr img input link meta param source track wbr".split()


def gen_tags(choose):
    return choose(HTML + VOIDS), choose(("self", "open", "attr", "nested", "text"))


def run_tags(case):
    tag, form = case
    void = tag in VOIDS
    src = {"self": "<%s/>", "open": "<%s>", "attr": '<%s k="&lt;">', "nested": "<%s>", "text": "<%s>"}[form] % tag
    want = "<%s%s" % (tag, ' k="&lt;"' if form == "attr" else "")
    inner = {"nested": "<b>x</b>", "text": "&amp;"}.get(form, "")
    if void:
        return check("<html>1%s2</html>" % src, "<html>1%s />2</html>" % want)
    if form == "self":
        return check("<html>1%s2</html>" % src, "<html>1%s></%s>2</html>" % (want, tag))
    return check("<html>1%s%s</%s>2</html>" % (src, inner, tag), "<html>1%s>%s</%s>2</html>" % (want, inner, tag))


# names that share a prefix or what follows it
NAMESPACES = [("xmlns:py='u'", ""), ("xmlns='v'", " xmlns=\"v\""), ("xmlns:x='w'", " xmlns:x=\"w\""), ("lang='l'", " lang=\"l\""), ("xml:lang='m'", " xml:lang=\"m\""), ("x:lang='n'", " x:lang=\"n\""), ("py='o'", " py=\"o\""),
              ("if='p'", " if=\"p\""), ("x:if='q'", " x:if=\"q\""), ("xmlns:if='r'", " xmlns:if=\"r\""), ("XMLNS:PY='s'", ""), ("xpy:if='t'", " xpy:if=\"t\""), ("py-if='u'", " py-if=\"u\""), (":if='v'", " :if=\"v\""), ("py:if='1'", "")]


def gen_namespaces(choose):
    left, seq = list(range(len(NAMESPACES))), []
    for _ in range(choose((1, 2, 3))):
        i = choose(left)
        left = [j for j in left if j != i and NAMESPACES[i][0].lower()[:8] != NAMESPACES[j][0].lower()[:8]]
        seq.append(i)
    return tuple(seq), choose(("p", "br", "html"))


def run_namespaces(case):
    seq, tag = case
    src = "".join(" " + NAMESPACES[i][0] for i in seq)
    want = "".join(NAMESPACES[i][1] for i in seq)
    if tag == "html":
        return check("<html%s><b/></html>" % src, "<html%s><b></b></html>" % want)
    return check("<html><%s%s%s</html>" % (tag, src, "/>" if tag == "br" else "></p>"), "<html><%s%s%s</html>" % (tag, want, " />" if tag == "br" else "></p>"))


def run_elements(case):
    return py.compare({"t": names.tag_nodes(case)}, "t", names.contexts(("<v>",)))


def run_names(case):
    return py.compare({"t": names.attr_nodes(case)}, "t", names.contexts(("<v>",))[:1])


REFERENCES = references()


def suites(tier):
    deep = tier == "thorough"
    rv = [
        core.Suite("tags", gen_tags, run_tags, "every HTML element"),
        core.Suite("elements", names.gen_tags(), run_elements, "every HTML element with every construct"),
        core.Suite("namespaces", gen_namespaces, run_namespaces, "names of attributes that share a prefix or what follows it"),
        core.Suite("names", names.gen_attrs(ctls=("", "strip0", "if"), tags=("p", "input", "script")), run_names, "every HTML attribute, on three elements"),
        core.Suite("documents", gen_doc, run_doc, "doctype, comments and white space around the root"),
        core.Suite("content", gen_seq(PIECES, (0, 1, 2, 3)), run_seq,
                   "sequences of up to 3 of %d pieces of content" % len(PIECES)),
        core.Suite("content_nested", gen_seq(PIECES, (1, 2) if not deep else (1, 2, 3)), run_seq_nested,
                   "sequences divided over elements"),
        core.Suite("attribute_value", gen_attr((0, 1, 2) if not deep else (0, 1, 2, 3)), run_attr, "attribute values"),
        core.Suite("attributes", gen_attrs((0, 1, 2, 3) if not deep else (0, 1, 2, 3, 4)), run_attrs, "sequences of attributes"),
        core.Suite("raw_text", gen_seq(RAW, (0, 1, 2, 3)), run_raw, "contents of script and style"),
        core.Suite("raw_mixed", gen_mixed, run_mixed, "contents of script and style with expressions, in other constructs"),
        core.Suite("raw_mixed3", gen_mixed3(3), run_mixed, "sequences of 3 pieces of such contents"),
        core.Suite("comments", gen_comment((0, 1, 2, 3) if not deep else (0, 1, 2, 3, 4)), run_comment, "texts of comments"),
        core.Suite("references", gen_references, run_references, "all named references of HTML 5, and numeric ones in every notation"),
        core.Suite("trees", gen_tree(2, 2), run_tree, "trees of elements, depth 2"),
        core.Suite("trees3", gen_tree(3, 1), run_tree, "trees of elements, depth 3"),
        sizes.suite("children static characters comment attributes depth depth_block depth_if blocks ifs strips name_tag words spaces literal chain", tier),
    ]
    if deep:
        small = [PIECES.index(p) for p in TEXT[:2] + TEXT[4:6] + TEXT[9:10] + TEXT[19:20] + MARKUP[:5] + MARKUP[6:9] + MARKUP[10:14] + MARKUP[18:22]]
        rv.append(core.Suite("content4", lambda choose: tuple(choose(small) for _ in range(4)), run_seq, "sequences of 4 of %d pieces" % len(small)))
    return rv
