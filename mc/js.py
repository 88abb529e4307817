"""Compiling JavaScript templates and executing them in one node process per worker."""
import json
import os
import subprocess

from mc import core, tk

_proc = None


def speed_up():
    """
    slimit builds its whole parser for each expression; keep one instead. Only the
    time changes; if this slimit is not like that, everything stays as it is.
    """
    try:
        import slimit.parser as sp
        orig = sp.Parser
        proto = orig()
        proto.parse("a")
    except Exception:
        return

    class Cached(object):
        def __init__(self, *a, **kw):
            self.made = orig(*a, **kw) if a or kw else None

        def parse(self, text, debug=False):
            nonlocal proto
            if self.made is not None:
                return self.made.parse(text, debug)
            p = proto
            p._error_tokens = {}
            lx = p.lexer
            lx.prev_token = lx.cur_token = None
            lx.next_tokens = []
            lx.lexer.lineno = 1
            lx.lexer.begin("INITIAL")
            try:
                return p.parse(text, debug)
            except BaseException:
                proto = orig()
                raise

    sp.Parser = Cached
    import slimit
    import slimit.minifier
    for m in (slimit, slimit.minifier):
        if getattr(m, "Parser", None) is orig:
            m.Parser = Cached


def node():
    global _proc
    if _proc is None or _proc[1] != os.getpid() or _proc[0].poll() is not None:
        here = os.path.dirname(os.path.abspath(__file__))
        p = subprocess.Popen(["node", os.path.join(here, "run.js"), os.path.join(core.REPO, "tonnikala/runtime/javascript.js")],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        _proc = p, os.getpid()
    return _proc[0]


def execute(modules, calls):
    """
    modules: {name: code}; calls: [(name, context source, options)].
    -> [("ok", text) or ("err", name, message)]
    """
    core.step(len(calls))
    p = node()
    p.stdin.write(json.dumps(dict(modules=modules, calls=calls)).encode() + b"\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("node died")
    return [tuple(i) for i in json.loads(line)]


def compile1(src, **kw):
    from tonnikala.loader import JSLoader
    core.step()
    return JSLoader(**kw).load_string(src)


# before anything imports the parser
speed_up()


# -------------------------------------------------------------- reference model
def number(v):
    if isinstance(v, bool) or isinstance(v, int):
        return str(v)
    if v != v:
        return "NaN"
    if v in (float("inf"), float("-inf")):
        return "Infinity" if v > 0 else "-Infinity"
    if v == int(v):
        return str(int(v))
    return repr(v)


def text(v):
    """String(v)"""
    if isinstance(v, float):
        return number(v)
    if isinstance(v, (list, tuple)):
        return ",".join("" if i is None or i is tk.UNDEFINED else text(i) for i in v)
    return tk.js_str(v)


def truth(v):
    if v is None or v is tk.UNDEFINED or v is False:
        return False
    if isinstance(v, (int, float)):
        return not (v == 0 or v != v)
    if isinstance(v, str):
        return v != ""
    return True


def source_of(v):
    """a Python value as JavaScript source"""
    if v is None:
        return "null"
    if v is tk.UNDEFINED:
        return "undefined"
    if v is True or v is False:
        return str(v).lower()
    if isinstance(v, (int, float)):
        return number(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return "[%s]" % ", ".join(source_of(i) for i in v)
    if isinstance(v, dict):
        return "{%s}" % ", ".join("%s: %s" % (json.dumps(k), source_of(i)) for k, i in v.items())
    if isinstance(v, tk.Frag):
        return "literal(%s)" % json.dumps(v.s)
    return v.js


class Builtins(dict):
    """a name that is bound nowhere is undefined"""

    def __missing__(self, name):
        return tk.UNDEFINED


BUILTINS = Builtins(S=text, T=truth, true=True, false=False, null=None, undefined=tk.UNDEFINED)


class JSModel(tk.Model):
    def __init__(self, templates):
        tk.Model.__init__(self, templates, "js")

    def to_text(self, v):
        return text(v)

    def truth(self, v):
        return truth(v)

    def attr_pairs(self, v):
        return v if truth(v) and isinstance(v, (list, tuple)) else ()

    def ev(self, e, scope):
        g = scope.flat()
        g["__builtins__"] = BUILTINS
        return eval(tk._code(e if isinstance(e, str) else e[0]), g)


def model_render(templates, name, ctx):
    try:
        return "ok", JSModel(templates).render(name, ctx)
    except Exception:
        return ("err",)


def short(reply):
    """the kinds of errors are not compared"""
    return reply if reply[0] == "ok" else ("err",)


def compare(templates, name, ctxs, **kw):
    srcs = {k: tk.source(v, "js") for k, v in templates.items()}
    codes = {k: compile1(s, **kw) for k, s in srcs.items()}
    replies = execute(codes, [(name, source_of(c), {}) for c in ctxs])
    for ctx, got in zip(ctxs, replies):
        want = model_render(templates, name, ctx)
        core.outcome(got[:2])
        if short(got) != want:
            return "%s\nwith %s\n  gives    %r\n  expected %r" % ("\n".join("%s: %s" % i for i in srcs.items()), source_of(ctx), got, want)
    if len(replies) > len(ctxs):
        return "%r: global variables appeared: %r" % (srcs, replies[-1])
