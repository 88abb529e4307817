"""C03: what is an expression and what is text."""
import ast
import re
import warnings

from mc import core, names, py, sizes, tk

warnings.simplefilter("ignore")


class Bad(Exception):
    """the template has to be rejected"""


# -------------------------------------------------------- reference scanner
OPEN = {"(": ")", "[": "]", "{": "}"}


def scan(s, i, end):
    """
    From position i to after the character that ends the expression: the closing
    bracket that matches, outside of strings and comments.
    """
    stack = [end]
    while i < len(s):
        c = s[i]
        if c in "'\"":
            q = c * 3 if s.startswith(c * 3, i) else c
            i += len(q)
            while True:
                if i >= len(s):
                    raise Bad("unterminated string")
                if s[i] == "\\":
                    i += 2
                    continue
                if s.startswith(q, i):
                    i += len(q)
                    break
                if s[i] == "\n" and len(q) == 1:
                    raise Bad("line break in a string")
                i += 1
            continue
        if c == "#":
            while i < len(s) and s[i] != "\n":
                i += 1
            continue
        if c in OPEN:
            stack.append(OPEN[c])
        elif c in ")]}":
            if c != stack.pop():
                raise Bad("mismatch")
            if not stack:
                return i + 1
        i += 1
    raise Bad("unclosed")


NAME = re.compile(r"[A-Za-z_]\w*")
ATTR = re.compile(r"\.[^\W\d]\w*")


def split(s):
    """list of ('t', text) and ('x', expression)"""
    out, i, text = [], 0, ""
    while i < len(s):
        if s[i] != "$":
            text += s[i]
            i += 1
        elif s.startswith("$$", i):
            text += "$"
            i += 2
        elif s.startswith("${", i):
            j = scan(s, i + 2, "}")
            out += [("t", text), ("x", s[i + 2:j - 1])]
            text, i = "", j
        elif NAME.match(s, i + 1):
            j = NAME.match(s, i + 1).end()
            while j < len(s):
                if s[j] in "([":
                    j = scan(s, j + 1, OPEN[s[j]])
                elif ATTR.match(s, j):
                    j = ATTR.match(s, j).end()
                else:
                    break
            out += [("t", text), ("x", s[i + 1:j])]
            text, i = "", j
        else:
            text += "$"
            i += 1
    return out + [("t", text)]


class Any(object):
    """a value on which everything can be done, and that shows what was done"""

    def __init__(self, s):
        object.__setattr__(self, "s", s)

    def __str__(self):
        return object.__getattribute__(self, "s")

    def __getattribute__(self, name):
        if name.startswith("__") and name.endswith("__"):
            return object.__getattribute__(self, name)
        return Any("%s.%s" % (self, name))

    def __call__(self, *a, **kw):
        return Any("%s(%s)" % (self, ",".join([str(i) for i in a] + ["%s=%s" % (k, v) for k, v in kw.items()])))

    def __getitem__(self, i):
        return Any("%s[%s]" % (self, i))

    def __iter__(self):
        return iter([Any("%s0" % self), Any("%s1" % self)])

    def __repr__(self):
        return "<%s>" % self

    def __add__(self, other):
        return Any("%s+%s" % (self, other))

    __radd__ = __add__
    __hash__ = object.__hash__


CTX = {n: Any(n) for n in ("a", "b", "ab", "ba", "aa", "bb", "_", "a1", "b1", "b_", "_a", "a\u00e9", "k", "A", "Z", "z", "aA", "Aa", "AA", "A1", "A_", "_A", "__", "A\u00e9", "Zz", "a_")}
_asts = {}


def reference(s):
    try:
        parts = split(s)
        for kind, x in parts:
            if kind == "x":
                try:
                    ast.parse(x.lstrip() + "\n", mode="eval")
                except SyntaxError:
                    raise Bad(x)
    except Bad:
        return "rejected", None
    out = []
    for kind, x in parts:
        if kind == "t":
            out.append(tk.escape(x))
        else:
            try:
                v = eval(x.lstrip() + "\n", dict(CTX))
            except SyntaxError:
                return "rejected", None       # not found before compiling
            except NameError:
                return "err", "NameError"
            except Exception as e:
                return "err", type(e).__name__
            out.append(tk.escape(text(v)))
    return "ok", "".join(out)


def text(v):
    """lambdas and generators as text have names and addresses"""
    return norm(str(v))


def norm(s):
    s = re.sub(r"(\w+\.(&lt;|<)locals(&gt;|>)\.)+", "", s)
    return re.sub(" at 0x[0-9a-f]+", " at X", s)


def render(t):
    if t is None:
        return "rejected", None
    kind, out = py.render(t, CTX)
    return kind, norm(out)


def load(src):
    from tonnikala.runtime.exceptions import TemplateSyntaxError
    try:
        return py.load1(src)
    except TemplateSyntaxError:
        return None


def run(s):
    want = reference(s)
    msg = None
    src = "<a>%s</a>" % tk.esc_text(s)
    t = load(src)
    got = render(t)
    core.outcome(got)
    w = want if want[0] != "ok" else ("ok", "<a>%s</a>" % want[1])
    if got != w:
        return "%r\n  gives    %r\n  expected %r" % (src, got, w)


def run_attr(s):
    want = reference(s)
    parts = None if want[0] == "rejected" else [p for p in split(s) if p != ("t", "")]
    if parts is not None and len(parts) == 1 and parts[0][0] == "x":
        s += "."                    # a single expression can leave out the attribute: C06
        want = reference(s)
    src = '<a k="%s"></a>' % tk.esc_attr(s)
    t = load(src)
    got = render(t)
    core.outcome(got)
    w = want if want[0] != "ok" else ("ok", '<a k="%s"></a>' % want[1])
    if got != w:
        return "%r\n  gives    %r\n  expected %r" % (src, got, w)


def run_script(s):
    """in script and style the text is not escaped, and interpolated values are"""
    want = reference(s)
    if want[0] == "ok":
        out = []
        for kind, x in split(s):
            out.append(x if kind == "t" else tk.escape(text(eval(x.lstrip() + "\n", dict(CTX)))))
        want = "ok", "<a><script>%s</script></a>" % "".join(out)
    t = load("<a><script>%s</script></a>" % s)
    got = render(t)
    core.outcome(got)
    if got != want:
        return "<script>%r\n  gives    %r\n  expected %r" % (s, got, want)


def gen_names(choose):
    return choose(names.ATTRS), choose(NAME_STRINGS), choose(("p", "input", "a", "script"))


NAME_STRINGS = ["$a", "x$a", "$a.b", "$a $a", "${a}", "${a}$$", "$$a", "$", "{a}", "${a", "$1", "$a[0]!", "javascript:f($a)", "a: ${a};", "${'}'}", "a,$a b"]


def run_names(case):
    name, s, tag = case
    want = reference(s)
    t = load('<a><%s %s="%s"/></a>' % (tag, name, tk.esc_attr(s)))
    got = render(t)
    core.outcome(got)
    w = want if want[0] != "ok" else ("ok", '<a><%s %s="%s"%s</a>' % (tag, name, want[1], " />" if tag == "input" else "></%s>" % tag))
    if got != w:
        return "%s %s=%r\n  gives    %r\n  expected %r" % (tag, name, s, got, w)


def gen_elements(choose):
    return choose([t for t in names.HTML if t != "style"]), choose(NAME_STRINGS)


def run_elements(case):
    tag, s = case
    if tag == "script":
        return run_script(s)
    want = reference(s)
    t = load("<a><%s>%s</%s></a>" % (tag, tk.esc_text(s), tag))
    got = render(t)
    core.outcome(got)
    w = want if want[0] != "ok" else ("ok", "<a><%s>%s</%s></a>" % (tag, want[1], tag))
    if got != w:
        return "%s %r\n  gives    %r\n  expected %r" % (tag, s, got, w)


def strings(prefixes, chars, n, suffixes=("",)):
    def gen(choose):
        p = choose(prefixes)
        k = choose(n)
        return p + "".join(choose(chars) for _ in range(k)) + choose(suffixes)
    return gen


ALL = "$a{}()[].'\" 1\n\u00e9_<&,-"
TOKENS = ["a", ".b", "(", ")", "[", "]", "{", "}", "'x'", "'}'", '"{"', "#}\n", ":", "1", " ", ",", "\n", "lambda: ", "'''}\n'''", '"\\""', "$", "$a",
          "b'}'", "r'\\}'", "''", "''')'''", " for k in ", "$${", "${", "=", "not "]
FSTRINGS = ["f'{a}'", "f'}}'", "f'{{'", "f'{{}}'", "f'{a}}}'", "f'{{{a}}}'", "f'{a!r:>{1}}'", "f'{(lambda: a)()}'", "f\"{'}'}\"", "f'{a[0]}'", "rf'\\{a}'",
            "f'''{a}\n}}'''", "f'{ {1: 2} }'", "f'x' 'y}'", "f''", "f')'", "f'('", "f'[{a}]'", "f']'", "f'){a}('"]


def gen_fstrings(choose):
    f = choose(FSTRINGS)
    return choose(("${%s}", "$a(%s)", "${%s}}", "x${ %s }.y", "${a}${%s}{", "$a[%s]]", "$a(%s).b(%s) c", "${{1: %s}}", "${[%s, '}']}")).replace("%s", f)


def suites(tier):
    deep = tier == "thorough"
    return [
        core.Suite("fstrings", gen_fstrings, run, "f-strings in expressions"),
        core.Suite("text", strings([""], ALL, (0, 1, 2, 3) if not deep else (0, 1, 2, 3, 4), ("", " a")), run,
                   "all strings of up to 3 characters over %d" % len(ALL)),
        core.Suite("identifiers", strings(["", "$", "x $", "${A}"], "$aA_Z0\u00e9{}", (1, 2, 3) if not deep else (1, 2, 3, 4, 5)), run, "names of upper and lower case letters"),
        core.Suite("unbraced", strings(["$a", "$$$a", "x$b "], "$a.()[]' 1{", (1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5)), run,
                   "$name followed by any string"),
        core.Suite("braced", strings(["${"], "a{}'\"#\n(),:", (1, 2, 3, 4), ("", "}", "} }'")), run, "${ followed by any string"),
        core.Suite("tokens", strings(["${", "$a(", "$b[", "${a"], TOKENS, (1, 2, 3), ("", "}", ")]}.a")), run,
                   "sequences of up to 3 of %d tokens within an expression" % len(TOKENS)),
        core.Suite("attribute", strings(["", "$a", "${", "$a("], "$a{}().' \"", (1, 2, 3) if not deep else (1, 2, 3, 4), ("", "}", ")")), run_attr, "in attribute values"),
        core.Suite("names", gen_names, run_names, "in every HTML attribute"),
        core.Suite("elements", gen_elements, run_elements, "in every HTML element"),
        core.Suite("script", strings(["", "$a", "${", "$a("], "$a{}().' \"&", (1, 2, 3) if not deep else (1, 2, 3, 4), ("", "}", ")")), run_script, "in script elements"),
        sizes.suite("children expressions names variables parts dynamic_attributes characters literal name_variable words", tier),
    ]
