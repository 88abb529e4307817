"""Values and operations on buffers, for C10 and C11."""
import enum
import importlib.util
import os
import sys

from mc import core


def python_buffer():
    """the runtime module as it is where the extension is not available"""
    import tonnikala.runtime.python as mod
    name = "tonnikala.runtime._buffer"
    old = sys.modules.get(name)
    sys.modules[name] = None
    try:
        spec = importlib.util.spec_from_file_location("tonnikala.runtime.python_without_c", mod.__file__)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        if old is None:
            sys.modules.pop(name, None)
        else:
            sys.modules[name] = old
    return m


class Html(object):
    def __html__(self):
        return "<h>"

    def __str__(self):
        return "str<"


class Obj(object):
    def __str__(self):
        return "obj<&"


class Fail(object):
    def __str__(self):
        raise KeyError("no")

    __html__ = __str__


class FailHtml(object):
    def __html__(self):
        raise ZeroDivisionError()

    def __str__(self):
        return "failhtml<"


class NotStr(object):
    def __str__(self):
        return 5


class Sub(str):
    pass


class SubStr(str):
    def __str__(self):
        return "other<"


class SubHtml(str):
    def __html__(self):
        return "<sh>"


class Writes(object):
    """converting it writes to the buffer"""
    buf = None

    def __str__(self):
        if self.buf is not None:
            self.buf("w!")
        return "writes"


class BoolLike(object):
    def __bool__(self):
        raise ValueError("no truth")

    def __eq__(self, other):
        raise ValueError("not comparable")

    __hash__ = None

    def __str__(self):
        return "boollike"


class Duck(object):
    """has what a buffer has"""
    buffer = _buffer = buffer_list = ["duck<"]

    def join(self):
        return "join<"

    output = output_boolean_attr = __call__ = append = extend = join

    def __iter__(self):
        return iter("iter<")

    def __str__(self):
        return "duckstr<"


class GivesSub(object):
    def __str__(self):
        return SubStr("givessub<")


class IntSub(int):
    def __str__(self):
        return "intsub<"


class TextEnum(str, enum.Enum):
    A = "enum<"


def values(buffers):
    from markupsafe import Markup
    w = Writes()
    w.buf = buffers[0]
    return {
        "str": "a<b>&\"'", "empty": "", "name": "nm", "markup": Markup("<m>&"), "int": 5, "zero": 0, "one": 1, "float": 1.5, "none": None, "true": True,
        "false": False, "html": Html(), "obj": Obj(), "fail": Fail(), "failhtml": FailHtml(), "notstr": NotStr(), "sub": Sub("s<"), "substr": SubStr("x"),
        "subhtml": SubHtml("y<"), "bytes": b"b<", "list": ["<", 1], "tuple": ("<",), "uni": "\u00e4\u20ac\U0001f600<", "writes": w, "duck": Duck(), "givessub": GivesSub(), "intsub": IntSub(1), "enum": TextEnum.A, "bytearray": bytearray(b"<"),
        "long": "<long " * 50, "big": 10 ** 30, "nul": "\0<\ud800", "boollike": BoolLike(),
        "b0": buffers[0], "b1": buffers[1], "type": str,
    }


def apply(Buffer, buffers, vals, op):
    """performs one operation; what it gives"""
    from markupsafe import Markup, escape
    k = op[0]
    try:
        if k == "call":
            rv = buffers[op[1]](*[vals[a] for a in op[2]])
        elif k == "attr":
            rv = buffers[op[1]].output_boolean_attr(vals[op[2]], vals[op[3]])
        elif k == "attrn":
            rv = buffers[op[1]].output_boolean_attr(*[vals[a] for a in op[2]])
        elif k == "kw":
            rv = buffers[op[1]](x=1)
        elif k == "join":
            rv = buffers[op[1]].join()
        elif k == "str":
            rv = str(buffers[op[1]])
        elif k == "html":
            rv = buffers[op[1]].__html__() is buffers[op[1]]
        elif k == "escape":
            rv = escape(buffers[op[1]])
        elif k == "markup":
            rv = Markup(buffers[op[1]])
        elif k == "mod":
            rv = Markup("<%s>") % (buffers[op[1]],), "%s" % buffers[op[1]], "{}".format(buffers[op[1]])
        elif k == "bool":
            rv = bool(buffers[op[1]]), buffers[0] == buffers[1], buffers[0] == buffers[0]
        elif k == "new":
            buffers[op[1]] = Buffer()
            vals["b%d" % op[1]] = buffers[op[1]]
            if op[1] == 0:
                vals["writes"].buf = buffers[0]
            rv = None
        elif k == "newargs":
            rv = str(Buffer(*[vals[a] for a in op[2]]))
        else:
            raise AssertionError(op)
        return "ok", rv, type(rv).__name__
    except Exception as e:
        return "err", type(e).__name__


def call_ops(names, most):
    """calls of b0 with up to `most` arguments"""
    rv = [("call", 0, ())]
    level = [()]
    for i in range(most):
        level = [t + (n,) for t in level for n in names]
        rv += [("call", 0, t) for t in level]
    return rv


QUERIES = [("join", 0), ("str", 0), ("html", 0), ("escape", 0), ("markup", 0), ("mod", 0), ("bool", 0), ("kw", 0), ("new", 0), ("attrn", 0, ("name",)),
           ("attrn", 0, ()), ("attrn", 0, ("name", "str", "str"))]
NAMES = ["str", "empty", "name", "markup", "int", "zero", "one", "float", "none", "true", "false", "html", "obj", "fail", "failhtml", "notstr", "sub", "substr",
         "subhtml", "bytes", "list", "tuple", "uni", "writes", "boollike", "b0", "b1", "type",
         "duck", "givessub", "intsub", "enum", "bytearray", "long", "big", "nul"]
FEW = ["str", "markup", "int", "none", "html", "fail", "sub", "writes", "b0", "b1"]
