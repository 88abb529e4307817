"""
C11: the accelerated Buffer keeps reference counts balanced.

The process runs with the debugging allocator, which fills freed memory, so that the use
of an object that was freed crashes (reported as a violation).
"""
import gc
import sys

import _testcapi

from mc import buf, core

ENV = {"PYTHONMALLOC": "debug"}
C = ESCAPE = MODULE = None


def prepare():
    global C, ESCAPE
    import markupsafe
    import tonnikala.runtime.python as mod
    C = mod.Buffer
    ESCAPE = markupsafe.escape
    b = C()
    assert type(type(b).join).__name__ == "method_descriptor", "the extension is not in use"


class Plain(object):
    """an object whose conversion gives the same string every time"""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Counted(Plain):
    def __html__(self):
        return self.text


def make_values():
    """every value is a new object, referenced only from here"""
    v = buf.values([None, None])
    del v["b0"], v["b1"], v["type"]
    for k in ("none", "true", "false", "zero", "one", "int", "empty"):
        del v[k]
    v["str"] = "".join(["a<", "b>"])
    v["name"] = "".join(["n", "m"])
    v["uni"] = "".join(["\u20ac", "<"])
    v["big"] = 10 ** 30
    v["conv"] = Plain("".join(["con", "v"]))
    v["hconv"] = Counted("".join(["hcon", "v"]))
    return v


CONST = dict(none=None, true=True, false=False, int=5, empty="")


def constants():
    """the strings that the extension keeps"""
    b = C()
    b.output_boolean_attr("zz", True)
    return [s for s in getattr(b, "buffer", []) if s != "zz"]


def session(vals, case, fault=None, kept=None):
    """applies the operations to new buffers; nothing survives, apart from the contents if they are asked for"""
    buffers = [C(), C()]
    all_ = dict(CONST)
    all_.update(vals)
    all_["b0"], all_["b1"] = buffers
    all_["writes"].buf = buffers[0]
    try:
        for op in case[:-1]:
            buf.apply(C, buffers, all_, op)
        if fault is None:
            buf.apply(C, buffers, all_, case[-1])
        else:
            faulty(buffers, all_, case[-1], fault)
    finally:
        vals["writes"].buf = None
        if kept is not None:
            for name in ("b0", "b1"):
                kept.append(getattr(all_[name], "buffer", None))
        all_.clear()
    del buffers


def faulty(buffers, vals, op, k):
    """performs the operation with the k-th memory allocation failing"""
    if op[0] == "call":
        f, args = buffers[op[1]], tuple(vals[a] for a in op[2])
    elif op[0] == "attr":
        f, args = buffers[op[1]].output_boolean_attr, (vals[op[2]], vals[op[3]])
    elif op[0] == "new":
        f, args = C, ()
    else:
        f, args = (buffers[op[1]].join if op[0] == "join" else buffers[op[1]].__str__), ()
    set_, unset = _testcapi.set_nomemory, _testcapi.remove_mem_hooks
    stop = k + 1
    try:
        set_(k, stop)
        f(*args)
        unset()
        core.outcome("done")
    except Exception as e:
        unset()
        core.outcome((op, k, type(e).__name__))
    finally:
        unset()


def counts(vals, consts):
    rv = []
    for k in sorted(vals):
        o = vals[k]
        rv.append(sys.getrefcount(o))
        if isinstance(o, Plain):
            rv.append(sys.getrefcount(o.text))
        if isinstance(o, (list, tuple)):
            rv.extend(sys.getrefcount(i) for i in o)
    for o in consts + [ESCAPE, C, type(None), str]:
        rv.append(sys.getrefcount(o))
    return rv


def describe(vals, before, after):
    return "%s: %r -> %r" % (sorted(vals), before, after)


def check(vals, case, fault=None):
    consts = constants()
    before = counts(vals, consts)
    core.step(len(case))
    kept, same = [], [[], []]
    session(vals, case, fault, kept)
    if any(isinstance(x, list) and sys.getrefcount(x) != sys.getrefcount(y) for x, y in zip(kept, same)):
        return "after %r the contents of the buffers have %r references, and not %r" % (case, [sys.getrefcount(x) for x in kept], [sys.getrefcount(x) for x in same])
    del kept[:]
    after = counts(vals, consts)
    if before != after:
        # results of exceptions could be kept by the interpreter
        gc.collect()
        after = counts(vals, consts)
    if before != after:
        d = [i for i, (a, b) in enumerate(zip(before, after)) if a != b]
        return "after %r%s reference counts have changed (%s): %r -> %r" % (
            case, "" if fault is None else " with allocation %d of the last failing" % fault,
            sorted(vals) , [before[i] for i in d], [after[i] for i in d])


def run(case):
    vals = make_values()
    msg = check(vals, case)
    if msg:
        return msg
    core.outcome(case)
    # and nothing else is left allocated
    for i in range(2):
        session(vals, case)
    n = 8
    for attempt in range(20):        # the interpreter fills its caches first
        a = sys.getallocatedblocks()
        for i in range(n):
            session(vals, case)
        grown = sys.getallocatedblocks() - a
        if grown < n:
            return None
    return "%r leaves %d memory blocks allocated after %d rounds" % (case, grown, n)


def run_fault(case):
    vals = make_values()
    *ops, k = case
    return check(vals, tuple(ops), k)


def gen_escape(n):
    def g(choose):
        return tuple(choose(("f", "g", "default", "new", "attr", "use", "none")) for _ in range(n))
    return g


def run_escape(case):
    """the escape function is replaced"""
    from tonnikala.runtime import _buffer
    set_ = _buffer._set_escape_method
    f, g = (lambda s: "f" + s), (lambda s: "g" + s)
    funcs = dict(f=f, g=g, default=ESCAPE)

    def go():
        set_(ESCAPE)
        cur, b, bcur, got, want = ESCAPE, C(), ESCAPE, [], []
        for op in case:
            core.step()
            if op in funcs:
                cur = funcs[op]
                set_(cur)
            elif op == "new":
                b, bcur = C(), cur
            elif op == "attr":
                b.output_boolean_attr("n", "<")
            elif op == "use":
                c = C()
                c.output_boolean_attr("n", "<")
                got.append(str(c))
                want.append(' n="%s"' % cur("<"))
            elif op == "none":
                b.output_boolean_attr("n", None)
        set_(ESCAPE)
        return got == want

    before = [sys.getrefcount(x) for x in (f, g, ESCAPE)]
    if not go():
        return "%r: not the escape function that was set" % (case,)
    after = [sys.getrefcount(x) for x in (f, g, ESCAPE)]
    if before != after:
        return "%r: reference counts of the escape functions %r -> %r" % (case, before, after)


def gen(*alphabets):
    def g(choose):
        return tuple(choose(a) for a in alphabets)
    return g


VALS = ["str", "markup", "float", "big", "html", "obj", "conv", "hconv", "fail", "failhtml", "notstr", "sub", "substr", "subhtml", "bytes", "list", "tuple", "uni",
        "writes", "boollike", "none", "true", "false", "int", "empty", "b0", "b1", "name"]
FEW = ["str", "conv", "hconv", "fail", "notstr", "sub", "writes", "b0", "b1", "none", "true"]
CALLS = [("call", 0, ())] + [("call", 0, (a,)) for a in VALS] + [("call", 0, (a, b)) for a in VALS for b in VALS]
ATTRS = [("attr", 0, a, b) for a in VALS for b in VALS]
# formatting with Markup leaks in markupsafe itself
QUERIES = [q for q in buf.QUERIES if q[0] != "mod"] + [("attrn", 0, ("str", "conv", "hconv")), ("attrn", 0, ("str",)), ("newargs", 0, ("str",))]
SMALL = [("call", 0, (a,)) for a in FEW] + [("attr", 0, "name", a) for a in FEW] + [("attr", 0, "conv", "true"), ("attr", 0, "fail", "hconv"), ("attr", 0, "b1", "str"),
         ("call", 1, ("b0", "str")), ("attr", 1, "sub", "b0"), ("join", 0), ("str", 1), ("escape", 0), ("new", 0), ("kw", 0)]
FAULTY = [op for op in CALLS if len(op[2]) == 1] + [("call", 0, ("str", "conv")), ("call", 0, ("conv", "uni")), ("call", 0, ("b0", "b1"))] + \
    [("attr", 0, a, b) for a in ("name", "conv", "sub", "b1") for b in VALS] + [("join", 0), ("str", 0), ("new", 0)]


def suites(tier):
    deep = tier == "thorough"
    return [
        core.Suite("single", gen(CALLS + ATTRS + QUERIES), run, "every operation with every combination of values"),
        core.Suite("then", gen(SMALL, CALLS[:1 + len(VALS)] + [("attr", 0, "name", a) for a in VALS] + QUERIES), run, "two operations"),
        core.Suite("histories", gen(*[SMALL] * (5 if deep else 4)), run, "all histories of operations on two buffers"),
        core.Suite("escape_method", gen_escape(6 if deep else 5), run_escape, "replacing the escape function"),
        core.Suite("no_memory", gen([("call", 0, ("str",)), ("call", 0, ("str", "str", "str", "conv"))] + ([("attr", 0, "name", "str")] if deep else []), FAULTY, range(12 if deep else 8)), run_fault, "an operation with the k-th memory allocation failing"),
    ]
