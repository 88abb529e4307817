"""C24: compiling and rendering do not depend on hash seeds, process or history."""
import itertools
import os
import re
import subprocess
import sys

from mc import core, det

NAMES = ("na", "nb", "nc", "nd")
PROBE = """
import itertools
names = ("na", "nb", "nc", "nd")
other = ("__TK__escape", "__TK__output", "literal", "gettext", "__TK__mkbuffer", "len", "range")
def order(names, more):
    s = set()
    s.update(names)
    s.update(more)
    return "".join(i[1] for i in s if i in names)
print(order(names[:3], ()), order(names[:3], other), order(names, ()), order(names, other))
"""
SEEDS = None
ORDERS = None


def find_seeds(n):
    """
    hash seeds with which sets of n names are iterated in every possible order, alone and
    among other names
    """
    want = {(k, "".join(p)) for k in (0, 1) for p in itertools.permutations("abcd"[:n])}
    seeds = []
    env = dict(os.environ)
    seed = 0
    while want and seed < 4000:
        procs = []
        for s in range(seed, seed + 16):
            env["PYTHONHASHSEED"] = str(s)
            procs.append((s, subprocess.Popen([sys.executable, "-S", "-c", PROBE], env=env, stdout=subprocess.PIPE, text=True)))
        for s, p in procs:
            o = p.communicate()[0].split()
            o = o[:2] if n == 3 else o[2:]
            new = {(k, x) for k, x in enumerate(o)} & want
            if new:
                seeds.append(s)
                want -= new
        seed += 16
    assert not want, want
    return seeds


def prepare():
    global SEEDS
    SEEDS = find_seeds(4 if core.TIER == "thorough" else 3)


# ------------------------------------------------------------- templates
# pieces with the names of other variables
PIECES = [
    lambda a, b, c: '${%s}' % a,
    lambda a, b, c: '<py:def function="%s">D${%s}</py:def>' % (a, b),
    lambda a, b, c: '<py:def function="%s(%s=%s)">E${%s}$%s</py:def>' % (a, b, c, b, c),
    lambda a, b, c: '<py:with vars="%s=%s;%s=1">${%s}</py:with>' % (a, b, c, a),
    lambda a, b, c: '<py:for each="%s in %s">${%s}</py:for>' % (a, b, c),
    lambda a, b, c: '<py:for each="%s, x in [(1, 2)]">${%s}$x</py:for>' % (a, b),
    lambda a, b, c: '<py:block name="blk_%s">${%s}${%s}</py:block>' % (a, b, a),
    lambda a, b, c: '<?python %s = %s; %s = 2 ?>' % (a, b, c),
    lambda a, b, c: '<b x="${%s}" y="$%s-" py:attrs="dict(z=%s, w=1)"/>' % (a, b, c),
    lambda a, b, c: '<b py:if="%s" py:strip="%s">${[%s for %s in "p"]}</b>' % (a, b, a, c),
    lambda a, b, c: '${%s + %s + %s}' % (a, b, c),
    lambda a, b, c: '${%s()}${literal(%s)}' % (a, b),
    lambda a, b, c: '${(lambda %s: %s)(%s)}' % (a, b, c),
]
JS_PIECES = [
    lambda a, b, c: '${%s}' % a,
    lambda a, b, c: '<js:def function="%s">D${%s}</js:def>' % (a, b),
    lambda a, b, c: '<js:def function="%s(%s)">E${%s}$%s</js:def>' % (a, b, b, c),
    lambda a, b, c: '<js:with vars="%s=%s;%s=1">${%s}</js:with>' % (a, b, c, a),
    lambda a, b, c: '<js:for each="%s in %s">${%s}</js:for>' % (a, b, c),
    lambda a, b, c: '<js:block name="blk_%s">${%s}${%s}</js:block>' % (a, b, a),
    lambda a, b, c: '<b x="${%s}" y="$%s-" js:attrs="[[\'z\', %s]]"/>' % (a, b, c),
    lambda a, b, c: '<b js:if="%s" js:strip="%s">${%s[0]}</b>' % (a, b, c),
    lambda a, b, c: '${%s + %s + %s}' % (a, b, c),
    lambda a, b, c: '${%s()}${literal(%s)}' % (a, b),
    lambda a, b, c: '${function (%s) { return %s; }(%s)}' % (a, b, c),
    lambda a, b, c: '<js:import href="%s" alias="x%s"/><p><js:import href="%s" alias="y%s"/></p>' % (a, b, b, c),
]
ROLES = list(itertools.permutations(range(3)))


def gen_pieces(pieces, n, roles):
    def gen(choose):
        return tuple((choose(len(pieces)), choose(roles)) for _ in range(n))
    return gen


def text(case, pieces, names=NAMES):
    return "<html>%s</html>" % "".join(pieces[k](*[names[i] for i in ROLES[r]]) for k, r in case)


CTXS = [dict(na="A", nb="<B>", nc="CC", nd="D"), dict(na="A"), dict(nb="B", nc="C"), {}]


def py_case(case, names=NAMES, file=False):
    ctxs = [{names[NAMES.index(k)]: v for k, v in c.items()} for c in CTXS]
    return ("py", {"t": text(case, PIECES, names)}, "t", ctxs, ("__main__",) + tuple(names[:2]), {"file": file})


def clean(v):
    """addresses of objects"""
    if isinstance(v, tuple):
        return tuple(clean(i) for i in v)
    return re.sub(r"0x[0-9a-f]+", "0x", v) if isinstance(v, str) else v


def compare(case, show):
    results = {s: clean(det.child("seeds", s)([case])[0]) for s in SEEDS}
    first = results[SEEDS[0]]
    core.outcome(first)
    for s, r in results.items():
        if r != first:
            return "%s\n  with hash seed %d gives %s\n  with hash seed %d gives %s" % (show, SEEDS[0], repr(first)[:1500], s, repr(r)[:1500])


def run_py(case):
    c = py_case(case)
    return compare(c, c[1]["t"])


def run_js(case):
    src = text(case, JS_PIECES)
    return compare(("js", src, False), src)


def gen_js_min(choose):
    return tuple((choose(len(JS_PIECES)), choose(1)) for _ in range(2))


def run_js_min(case):
    src = text(case, JS_PIECES)
    return compare(("js", src, True), "minified " + src)


# ------------------------------------------------------------ inheritance
PARENT = ['<py:block name="na">P1${nc}</py:block>', '<py:def function="nb">P2${nc}</py:def>', '<py:def function="nc(x=na)">P3$x</py:def>', '<py:block name="nd">P4</py:block>',
          '<py:import href="lib" alias="nb"/>${nb.nd()}', '${na}${nb}${nc}']
CHILD = ['<py:block name="na">C1${nb}</py:block>', '<py:def function="nb">C2${na}</py:def>', '<py:def function="nc">C3${nd}</py:def>', '<py:block name="nd">C4${nc}</py:block>',
         '<py:import href="lib" alias="na"/>']


def gen_inherit(choose):
    p, c = tuple(i for i in range(len(PARENT)) if choose((0, 1))), tuple(i for i in range(len(CHILD)) if choose((0, 1)))
    if core.TIER == "quick" and len(p + c) > 4:
        raise core.Skip()
    return p, c


def run_inherit(case):
    p, c = case
    files = {"p": "<html>%s</html>" % "".join(PARENT[i] for i in p), "c": '<py:extends href="p">%s</py:extends>' % "".join(CHILD[i] for i in c),
             "lib": '<lib><py:def function="nd">L$na</py:def></lib>'}
    return compare(("py", files, "c", CTXS[:2], ("__main__", "na", "nb"), {}), repr(files))


# ---------------------------------------------------------- several errors
ERRORS = ['<b py:if="1 +"/>', '${a b}', '<py:nope/>', '<py:for each="x"/>', '<?python x = ?>', '<b py:what="1"/>', '<py:def function="1"/>', '${"', '</p>', '<b a="${"/>', '<py:with vars="1=1"/>']


def gen_errors(choose):
    return tuple(choose(ERRORS) for _ in range(choose((1, 2)))), choose(("py", "js", "chameleon", "translatable"))


def run_errors(case):
    src = "<html>%s</html>" % "\n".join(case[0])
    if case[1] == "js":
        return compare(("js", src.replace("py:", "js:"), False), src)
    options = {"chameleon": {"syntax": "chameleon"}, "translatable": {"translatable": True}}.get(case[1], {})
    return compare(("py", {"t": src}, "t", CTXS[:2], ("__main__",), options), src)


# ---------------------------------------------------------- history
def pool():
    T = lambda *k: text([(i, (3 * i) % 6) for i in k], PIECES)
    J = lambda *k: text([(i, (5 * i) % 6) for i in k], JS_PIECES)
    P = lambda src, **o: ("py", {"t": src}, "t", CTXS, ("__main__", "na"), o)
    return [
        P(T(0, 1, 3, 8)), P(T(2, 4, 6, 11)), P(T(3, 7, 9, 10)), P(T(1, 12, 3, 3)),
        P("<html>${</html>"), P('<html><b py:if="1 +"/></html>'), P("<html>a<b>c${na}</b></html>", translatable=True),
        P('<html tal:repeat="na in \'xy\'"><b tal:content="nb">$na</b></html>', syntax="chameleon"),
        P("<html>${1/0}</html>"),
        ("py", {"p": '<html><py:block name="na">1</py:block></html>', "c": '<py:extends href="p"><py:block name="na">2$nb</py:block></py:extends>'}, "c", CTXS, ("__main__", "na"), {}),
        ("js", J(0, 3, 4, 6), False), ("js", J(1, 2, 3, 3, 5), False), ("js", J(3, 10), True), ("js", "<html>${</html>", False), ("js", "<html><b js:if='a b'/></html>", False),
    ]


_reference = None


def internal(v):
    """the names that are generated are not significant"""
    seen = {}
    if isinstance(v, tuple):
        return tuple(internal(i) for i in v)
    if isinstance(v, str):
        return re.sub(r"__TK__\d+__", lambda m: seen.setdefault(m.group(), "__TK__gen%d__" % len(seen)), clean(v))
    return v


def reference():
    """each template in a new process"""
    global _reference
    if _reference is None:
        rv = []
        for c in pool():
            ch = det.Child(0)
            rv.append(internal(ch([c])[0]))
            ch.close()
        _reference = rv
    return _reference


def gen_history(n):
    def gen(choose):
        return tuple(choose(len(pool())) for _ in range(n))
    return gen


def run_history(case):
    p, ref = pool(), reference()
    got = det.child("history", 0)([p[i] for i in case])
    for i, g in zip(case, got):
        g = internal(g)
        core.outcome(g)
        if g != ref[i]:
            return "after %r\n%r\n  gives    %r\n  expected %r as in a new process" % (case, p[i], g, ref[i])


# ------------------------------------------------ after something failed
AROUND = ["%s", "<script>%s</script>", "<style>%s</style>", "<textarea>%s</textarea>", '<py:for each="i in [1]">%s</py:for>', '<py:block name="na">%s</py:block>', '<py:def function="na">%s</py:def>${na()}',
          '<p><py:def function="na(x=1)">%s</py:def>${na()}</p>', '<py:with vars="nb=1">%s</py:with>', '<b py:if="1" py:strip="1">%s</b>', '<b i18n:comment="c">%s</b>', '<py:unless test="0">%s</py:unless>']
BAD = ['<i py:foo="1"/>', "${a b}", "${", "$na<", '<py:nope/>', '<b py:if="1 +"/>', '<i a="${"/>', "</p>", "<?python x = ?>", '<py:for each="x"/>', '<py:extends href="${na}"/>',
       # when it is rendered
       "${1/0}", '<b py:attrs="1"/>', '<b py:strip="1/0">x</b>', '<b c="${1/0}"/>', "<?python 1/0 ?>", '<b py:content="1/0"/>', '<py:import href="nope" alias="na"/>', '<py:for each="i in 1">x</py:for>']
AFTER = ["<p>a &lt; b ${nb} &amp;</p>", "<p><script>a < b $nb</script><b>a &lt; $nb</b></p>", '<p><py:block name="nb">B${na}</py:block>$nb</p>', '<p><py:def function="na(nb=nb)">D$nb</py:def>${na()}$na</p>',
         '<p py:strip="1">  a $nb <b py:for="na in \'xy\'" a="$na" py:attrs="dict(b=nb)">$na</b></p>', "<p>a <b>c${nb}</b> d</p>", "<p>$$nb $na ${'<'}</p>"]


def gen_after_errors(choose):
    return tuple((choose(len(AROUND)), choose(len(BAD))) for _ in range(1)), choose(("", "translatable", "js", "chameleon")), choose(len(AFTER))


def failing(case, kind):
    a, b = case
    src = "<html>%s</html>" % AROUND[a] % BAD[b]
    if kind == "js":
        return "js", src.replace("py:", "js:").replace("?python", "?js"), False
    return "py", {"t": src}, "t", CTXS[1:3], ("__main__",), {"translatable": {"translatable": True}, "chameleon": {"syntax": "chameleon"}}.get(kind, {})


def afterwards():
    rv = []
    for src in AFTER:
        rv.append([("py", {"t": src}, "t", CTXS, ("__main__",), {}), ("py", {"t": src}, "t", CTXS[:1], ("__main__",), {"translatable": True}), ("py", {"t": src}, "t", CTXS[:1], ("__main__",), {"file": True})])
        rv[-1].append(("js", src.replace("py:", "js:"), False))
    return rv


_after = None


def run_after_errors(case):
    """in an interpreter that has seen all kinds of failures so far"""
    global _after
    if _after is None:
        _after = []
        for cs in afterwards():
            ch = det.Child(0)
            _after.append(internal(tuple(ch(cs))))
            ch.close()
    fails, kind, k = case
    got = det.child("after_errors", 0)([failing(f, kind) for f in fails] + afterwards()[k])
    core.outcome(clean(got[0]))
    g = internal(tuple(got[len(fails):]))
    if g != _after[k]:
        return "after %r\n%s\n  gives    %r\n  expected %r as in a new process" % ([failing(f, kind) for f in fails], AFTER[k], g, _after[k])


# ----------------------------------------------------------- renaming
RENAMINGS = [NAMES] + [tuple(p) for p in itertools.permutations(("zz", "q1", "Abc_d", "e")) ]


def run_renamed(case):
    """the same for every choice of names, hence for every order among them"""
    results = []
    for names in RENAMINGS:
        r = det.evaluate(py_case(case, names))
        core.step()
        back = dict(zip(names, NAMES))
        one = re.compile(r"\b(%s)\b" % "|".join(names))
        sub = lambda v: tuple(sub(i) for i in v) if isinstance(v, tuple) else one.sub(lambda m: back[m.group()], re.sub(r"0x[0-9a-f]+", "0x", v).replace("blk_" + names[0], "blk_na")) if isinstance(v, str) else v
        r = sub(r)
        results.append(r)
        core.outcome(r)
        if r != results[0]:
            return "%s\n  gives    %r\n  expected %r as for %s" % (text(case, PIECES, names), r, results[0], text(case, PIECES))


def suites(tier):
    deep = tier == "thorough"
    S = core.Suite
    few = [0, 3]
    return [
        S("pairs", gen_pieces(PIECES, 2, [0, 3, 4] if not deep else range(6)), run_py, "pairs of pieces, evaluated with %d hash seeds" % len(SEEDS)),
        S("triples", gen_pieces(PIECES, 3, [0] if not deep else few), run_py, "triples of pieces"),
        S("inheritance", gen_inherit, run_inherit, "subsets (quick: up to 4 together) of blocks, defs and imports of parent and child"),
        S("errors", gen_errors, run_errors, "up to two errors"),
        S("javascript", gen_pieces(JS_PIECES, 2, [0, 3, 4] if not deep else range(6)), run_js, "pairs of pieces for JavaScript: the same code"),
        S("minified", gen_js_min, run_js_min, "minified code"),
        S("history", gen_history(3 if not deep else 4), run_history, "histories of compiling, including failures; compared with new processes"),
        S("after_errors", gen_after_errors, run_after_errors, "%d templates after each of %d kinds of failure at each of %d places, compared with new processes" % (len(AFTER), len(BAD), len(AROUND))),
        S("renaming", gen_pieces(PIECES, 2, few if not deep else range(6)), run_renamed, "pairs of pieces, %d ways to name their variables" % len(RENAMINGS)),
    ]
