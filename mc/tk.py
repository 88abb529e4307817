"""
Template model: a small template AST, its serialisation to the three source
syntaxes, and a reference interpreter written from the documentation.

Nodes (plain tuples):
  ('t', text)                      literal text (decoded)
  ('x', expr)                      ${expr}
  ('n', src)                       $src   (unbraced interpolation)
  ('el', tag, attrs, ctl, kids)    element; attrs ((name, parts|None), ...)
  ('c', kind, arg, ctl, kids)      control element  <py:kind ...>
  ('raw', source, output)          source with fixed output
  ('pi', code)                     <?python code ?>
  ('imp', href, alias)             <py:import/>
  ('ext', href, kids)              <py:extends>
ctl: ((kind, arg), ...) control attributes of the element
expr: a string, or a pair (python, javascript)
args: if/unless/strip/replace/content/attrs: expr; for: (var, expr);
  def: (name, ((param, default|None), ...)); with: ((name, expr), ...); block: name
"""
import ast
import re

from mc import core

VOID = {"br", "hr", "img", "input", "area", "base", "col", "embed", "link",
        "meta", "param", "source", "track", "wbr", "keygen"}
ORDER = ["block", "if", "unless", "for", "def", "with"]
ELEM_ATTR = {"if": "test", "unless": "test", "for": "each", "def": "function",
             "with": "vars", "block": "name", "replace": "value"}


# --------------------------------------------------------------- serialising
def esc_text(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def esc_attr(s):
    return s.replace("&", "&amp;").replace('"', "&quot;").replace("<", "&lt;")


def ex(e, js):
    return e if isinstance(e, str) else e[1 if js else 0]


def _arg(kind, arg, js):
    if kind == "for":
        return "%s in %s" % (arg[0], ex(arg[1], js))
    if kind == "def":
        if arg[1] is None:
            return arg[0]
        return "%s(%s)" % (arg[0], ", ".join(
            p if d is None else "%s=%s" % (p, ex(d, js)) for p, d in arg[1]))
    if kind == "with":
        return "; ".join("%s=%s" % (n, ex(e, js)) for n, e in arg)
    if kind == "block":
        return arg
    return ex(arg, js)


def _ctl(ctl, p, js):
    names = {}
    if p == "tal":
        names = {"if": "condition", "for": "repeat", "strip": "omit-tag"}
    return "".join(' %s:%s="%s"' % (p, names.get(k, k), esc_attr(_arg(k, a, js))) for k, a in ctl)


def source(nodes, p="py", cdata=False):
    js = p == "js"
    out = []
    for n in nodes:
        k = n[0]
        if k == "t":
            s = n[1].replace("$", "$$")
            out.append(s if cdata else esc_text(s))
        elif k == "x":
            e = ex(n[1], js)
            out.append("${%s}" % (e if cdata else esc_text(e)))
        elif k == "n":
            out.append("$" + n[1])
        elif k == "raw":
            out.append(n[1])
        elif k == "pi":
            out.append("<?%s %s?>" % ("js" if js else "python", ex(n[1], js)))
        elif k == "imp":
            out.append('<%s:import href="%s" alias="%s"/>' % (p, n[1], n[2]))
        elif k == "ext":
            out.append('<%s:extends href="%s">%s</%s:extends>' % (p, n[1], source(n[2], p), p))
        elif k == "c":
            _, kind, arg, ctl, kids = n
            out.append('<%s:%s %s="%s"%s>' % (p, kind, ELEM_ATTR[kind], esc_attr(_arg(kind, arg, js)),
                                               _ctl(ctl, p, js)))
            out.append(source(kids, p))
            out.append("</%s:%s>" % (p, kind))
        elif k == "el":
            _, tag, attrs, ctl, kids = n
            out.append("<" + tag)
            for name, parts in attrs:
                if parts is None:
                    out.append(" " + name)
                    continue
                v = []
                for q in parts:
                    if q[0] == "t":
                        v.append(esc_attr(q[1].replace("$", "$$")))
                    elif q[0] == "n":
                        v.append("$" + q[1])
                    else:
                        v.append("${%s}" % esc_attr(ex(q[1], js)))
                out.append(' %s="%s"' % (name, "".join(v)))
            out.append(_ctl(ctl, p, js))
            if tag in VOID:
                out.append("/>")
            else:
                out.append(">")
                out.append(source(kids, p, cdata or tag in ("script", "style")))
                out.append("</%s>" % tag)
        else:
            raise AssertionError(n)
    return "".join(out)


# -------------------------------------------------------------- interpreting
def escape(s):
    s = "".join(list(s))    # the methods of subclasses can be different
    return (s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
            .replace('"', "&#34;").replace("'", "&#39;"))


class Frag(object):
    """result of calling a def or block"""

    def __init__(self, s):
        self.s = s

    def __html__(self):
        return self.s

    def __str__(self):
        return self.s


class JSUndefined(object):
    def __bool__(self):
        return False


UNDEFINED = JSUndefined()


def js_str(v):
    if v is UNDEFINED:
        return "undefined"
    if v is None:
        return "null"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, (list, tuple)):
        return ",".join("" if i is None else js_str(i) for i in v)
    if isinstance(v, Frag):
        return v.s
    if isinstance(v, dict):
        return "[object Object]"
    return str(v)


_codes = {}


def _code(src):
    c = _codes.get(src)
    if c is None:
        c = _codes[src] = compile("(" + src + "\n)", "<model>", "eval")
    return c


class Scope(dict):
    __slots__ = ("parent", "frame")

    def __init__(self, parent, frame=True):
        dict.__init__(self)
        self.parent = parent
        self.frame = frame

    def flat(self):
        chain = []
        s = self
        while s is not None:
            chain.append(s)
            s = s.parent
        rv = {}
        for s in reversed(chain):
            rv.update(s)
        return rv


class ImportedDefs(object):
    def __init__(self, name, defs):
        self._name = name
        self.__dict__.update(defs)

    def __getattr__(self, item):
        raise AttributeError("Imported template %r has no attribute %r" % (self._name, item))


class Model(object):
    """
    templates: {name: nodes}.  flavour 'py' or 'js'.  translate: None, or the
    gettext function; then static text is translated.
    """
    TR_ATTRS = {"title", "alt", "placeholder", "value", "caption"}

    def __init__(self, templates, flavour="py", translate=False):
        self.templates = templates
        self.js = flavour == "js"
        self.translate = translate
        self.bound_at = {}

    # values
    def to_text(self, v):
        return js_str(v) if self.js else str(v)

    def esc(self, v):
        h = getattr(v, "__html__", None)
        if h is not None:
            return str(h())
        return escape(self.to_text(v))

    def truth(self, v):
        return bool(v)

    def attr_pairs(self, v):
        return (v.items() if hasattr(v, "items") else v) if v else ()

    def literal(self, v):
        from markupsafe import Markup
        if self.js:
            return Frag(self.to_text(v))
        if v is None or isinstance(v, bool) or hasattr(v, "__html__"):
            return v
        return Markup(v)

    def ev(self, e, scope):
        src = e if isinstance(e, str) else e[0]
        g = scope.flat()
        if self.js:
            g.setdefault("__builtins__", {"UNDEFINED": UNDEFINED, "str": str, "len": len})
        return eval(_code(src), g)

    # binding of one template and its ancestors into the global scope
    def bind(self, name, G, bound):
        nodes = self.templates[name]
        ext = next((n for n in nodes if n[0] == "ext"), None)
        start = Scope(None)
        start.update(G)
        home = Scope(G)                      # aliases of this template's imports
        body = ext[2] if ext else nodes
        self.collect(body, G, home, bound, True, start)
        if ext:
            return self.bind(ext[1], G, bound)
        if "__main__" not in bound:
            bound["__main__"] = G["__main__"] = lambda: self.func(nodes, Scope(home))
        return G

    def collect(self, nodes, G, home, bound, top, start):
        for n in nodes:
            k = n[0]
            if k == "imp":
                if top:
                    home[n[2]] = self.import_(n[1], start)
            elif k == "c" or k == "el":
                ctl = self.ctls(n)
                inner_top = top
                for i, (kind, arg) in enumerate(ctl):
                    if kind == "block":
                        self.define(arg, G, bound, self.callable((), ctl[i + 1:], n, home))
                        inner_top = False
                    elif kind == "def" and inner_top:
                        self.define(arg[0], G, bound, self.callable(arg[1] or (), ctl[i + 1:], n, home))
                        inner_top = False
                    elif kind in ("if", "unless", "for", "def", "with"):
                        inner_top = False
                kinds = [a for a, b in n[3]]
                if n[0] == "c" and n[1] == "replace" or "replace" in kinds or "content" in kinds:
                    continue
                self.collect(n[4], G, home, bound, inner_top, start)

    def define(self, name, G, bound, func):
        if name not in bound:
            bound[name] = G[name] = func

    def import_(self, href, start):
        g = Scope(None)
        g.update(start)
        bound = {}
        self.bind(href, g, bound)
        return ImportedDefs(href, bound)

    def callable(self, params, rest, node, defscope):
        defaults = {}
        names = [p for p, d in params]

        def call(*args, **kw):
            s = Scope(defscope)
            if len(args) > len(names) and not self.js:
                raise TypeError("too many arguments")
            for i, p in enumerate(names):
                if i < len(args):
                    s[p] = args[i]
                elif p in kw:
                    s[p] = kw.pop(p)
                elif p in call.defaults:
                    s[p] = call.defaults[p]
                elif self.js:
                    s[p] = UNDEFINED
                else:
                    raise TypeError("missing argument")
            if kw:
                raise TypeError("unexpected arguments")
            out = []
            self.chain(rest, node, s, out)
            return Frag("".join(out))

        call.defaults = {p: self.ev(d, defscope) for p, d in params if d is not None}
        return call

    def func(self, nodes, scope):
        out = []
        self.nodes(nodes, scope, out)
        return Frag("".join(out))

    # nodes
    def ctls(self, n):
        attrs = dict(n[3])
        rv = [(k, attrs[k]) for k in ORDER if k in attrs]
        if n[0] == "c" and n[1] != "replace":
            rv.insert(0, (n[1], n[2]))
        return rv

    def nodes(self, nodes, scope, out, cdata=False, tr=None):
        if tr is None:
            tr = bool(self.translate)
        for n in nodes:
            k = n[0]
            if k == "t":
                self.text(n[1], scope, out, cdata, tr)
            elif k == "x" or k == "n":
                out.append(self.esc(self.ev(n[1], scope)))
            elif k == "raw":
                out.append(n[2])
            elif k == "imp":
                if n[2] not in scope.flat():
                    scope[n[2]] = self.import_(n[1], self.render_ctx)
            elif k == "pi":
                g = scope.flat()
                before = dict(g)
                exec(n[1] if isinstance(n[1], str) else n[1][0], g)
                for a, b in g.items():
                    if a != "__builtins__" and (a not in before or before[a] is not b):
                        self.statement(scope, a, b)
            elif k in ("c", "el"):
                self.chain(self.ctls(n), n, scope, out, cdata, tr)
            else:
                raise AssertionError(n)

    def statement(self, scope, name, value):
        """assignment by a statement of a processing instruction"""
        s = scope
        while name not in s and not s.frame:
            s = s.parent
        s[name] = value

    def text(self, s, scope, out, cdata, tr):
        if tr and s.strip():
            core = s.strip()
            i = s.index(core)
            v = scope.flat()["gettext"](core)
            out.append(escape_static(s[:i]) + (v if cdata else self.esc(v)) + escape_static(s[i + len(core):]))
        else:
            out.append(s if cdata else escape_static(s))

    def chain(self, ctl, n, scope, out, cdata=False, tr=None):
        if not ctl:
            return self.body(n, scope, out, cdata, tr)
        (kind, arg), rest = ctl[0], ctl[1:]
        if kind == "block":
            out.append(self.esc(scope.flat()[arg]()))
        elif kind == "if":
            if self.truth(self.ev(arg, scope)):
                self.chain(rest, n, scope, out, cdata, tr)
        elif kind == "unless":
            if not self.truth(self.ev(arg, scope)):
                self.chain(rest, n, scope, out, cdata, tr)
        elif kind == "for":
            for v in self.ev(arg[1], scope):
                s = Scope(scope, self.js)       # in JavaScript the body is a function
                self.assign(s, arg[0], v)
                self.chain(rest, n, s, out, cdata, tr)
        elif kind == "def":
            if n not in self.top_defs:
                scope[arg[0]] = self.callable(arg[1] or (), rest, n, scope)
        elif kind == "with":
            s = Scope(scope)
            for name, e in arg:
                self.assign(s, name, self.ev(e, s))
            self.chain(rest, n, s, out, cdata, tr)

    def assign(self, s, target, value):
        names = [i.strip() for i in target.strip("()").split(",")]
        if len(names) == 1:
            s[names[0]] = value
        else:
            value = list(value)
            if len(value) != len(names):
                raise ValueError("unpacking")
            for a, b in zip(names, value):
                s[a] = b

    def body(self, n, scope, out, cdata, tr):
        ctl = dict(n[3])
        if tr is None:
            tr = bool(self.translate)
        if n[0] == "c" and n[1] == "replace":
            out.append(self.esc(self.ev(n[2], scope)))
            return
        if "replace" in ctl:
            out.append(self.esc(self.ev(ctl["replace"], scope)))
            return
        if n[0] == "el":
            tag = n[1]
            strip = "strip" in ctl and (ctl["strip"] == "" or self.truth(self.ev(ctl["strip"], scope)))
            has_content = "content" in ctl or n[4]
            if not strip:
                out.append("<" + tag)
                self.attributes(n, ctl, scope, out, tr)
                out.append(" />" if tag in VOID else ">")
            cdata = cdata or tag in ("script", "style")
            tr = tr and tag not in ("script", "style")
        if "content" in ctl:
            out.append(self.esc(self.ev(ctl["content"], scope)))
        else:
            self.nodes(n[4], scope, out, cdata, tr)
        if n[0] == "el" and tag not in VOID:
            strip = "strip" in ctl and (ctl["strip"] == "" or self.truth(self.ev(ctl["strip"], scope)))
            if not strip:
                out.append("</%s>" % tag)

    def attributes(self, n, ctl, scope, out, tr):
        const, dyn = [], []
        for name, parts in n[2]:
            translated = tr and name in self.TR_ATTRS and parts and any(
                q[0] == "t" and q[1].strip() for q in parts)
            if parts is None or (all(q[0] == "t" for q in parts) and not translated):
                const.append((name, parts))
            else:
                dyn.append((name, parts))
        for name, parts in const:
            if parts is None:
                out.append(" " + name)
            else:
                out.append(' %s="%s"' % (name, "".join(escape_static(q[1]) for q in parts)))
        for name, parts in dyn:
            if len(parts) == 1 and parts[0][0] != "t":
                self.attr(name, self.ev(parts[0][1], scope), out)
            else:
                out.append(' %s="' % name)
                for q in parts:
                    if q[0] == "t":
                        self.text(q[1], scope, out, False, tr and name in self.TR_ATTRS)
                    else:
                        out.append(self.esc(self.ev(q[1], scope)))
                out.append('"')
        if "attrs" in ctl:
            for name, value in self.attr_pairs(self.ev(ctl["attrs"], scope)):
                self.attr(self.to_text(name), value, out)

    def attr(self, name, v, out):
        if v is None or v is False or v is UNDEFINED:
            return
        if v is True:
            out.append(' %s="%s"' % (name, name))
        else:
            out.append(' %s="%s"' % (name, self.esc(v)))

    # entry
    def find_top_defs(self, nodes, top, acc):
        for n in nodes:
            if n[0] in ("c", "el"):
                inner = top
                for kind, arg in self.ctls(n):
                    if kind == "def" and inner:
                        acc.add(n)
                        inner = False
                    elif kind in ("block", "if", "unless", "for", "def", "with"):
                        inner = False
                self.find_top_defs(n[4], inner, acc)
            elif n[0] == "ext":
                self.find_top_defs(n[2], True, acc)

    def prepare(self, ctx):
        self.top_defs = set()
        for nodes in self.templates.values():
            self.find_top_defs(nodes, True, self.top_defs)
        base = Scope(None)
        base["literal"] = self.literal
        if not self.js:
            base["gettext"] = lambda x: x
            base["egettext"] = lambda x: Frag(escape(x))
        base.update(ctx)
        self.render_ctx = base
        G = Scope(None)
        G.update(base)
        return G

    def render(self, name, ctx, funcname="__main__"):
        G = self.prepare(ctx)
        self.bind(name, G, {})
        return str(G[funcname]().s)


def escape_static(s):
    return escape(s)


def model_render(templates, name, ctx, flavour="py", translate=False, funcname="__main__"):
    """('ok', text) or ('err', exception type name)"""
    try:
        return "ok", Model(templates, flavour, translate).render(name, ctx, funcname)
    except NameError:
        return "err", "NameError"
    except Exception as e:
        return "err", type(e).__name__


# ------------------------------------------------- templates outside the model
_frees = {}


COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def analyse(src, mode):
    """
    Names that the code takes from outside, names that it assigns, names bound by its
    comprehensions and names that its inner scopes (comprehensions, lambdas) take from outside.
    """
    key = (src, mode)
    rv = _frees.get(key)
    if rv is not None:
        return rv
    used, assigned, comp, inner = set(), set(), set(), set()

    def visit(n, bound, nested):
        if isinstance(n, COMPS):
            visit(n.generators[0].iter, bound, nested)
            mine = {t.id for g in n.generators for t in ast.walk(g.target) if isinstance(t, ast.Name)}
            comp.update(mine)
            b = bound | mine
            for i, g in enumerate(n.generators):
                if i:
                    visit(g.iter, b, True)
                for c in g.ifs:
                    visit(c, b, True)
            for f in ("elt", "key", "value"):
                if hasattr(n, f):
                    visit(getattr(n, f), b, True)
        elif isinstance(n, ast.Lambda):
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                visit(d, bound, nested)
            a = n.args
            names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
            visit(n.body, bound | names, True)
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Store):
                assigned.add(n.id)
            elif n.id not in bound:
                used.add(n.id)
                if nested:
                    inner.add(n.id)
        else:
            for c in ast.iter_child_nodes(n):
                visit(c, bound, nested)

    visit(ast.parse(src if mode == "exec" else "(" + src + "\n)", mode=mode), frozenset(), False)
    rv = _frees[key] = used, assigned, comp, inner
    return rv


def frees(src, mode="eval"):
    return analyse(src, mode)[:2]


def inner_scopes(src, mode="eval"):
    return analyse(src, mode)[2:]


def targets(t):
    return re.findall(r"[A-Za-z_]\w*", t)


class Frame(object):
    def __init__(self):
        self.bound = {}          # name -> list of the kinds of its binders
        self.active = set()
        self.comp = {}           # name bound by a comprehension -> expressions
        self.inner = {}          # name used from outside by an inner scope -> expressions

    def bind(self, name, kind):
        self.bound.setdefault(name, []).append(kind)


class Limits(object):
    """
    Raises Skip for templates whose meaning in Python differs from lexical scoping
    in ways that are documented as limits: loops, definitions and statements bind
    their names in the whole function around them.
    """

    def __init__(self, nodes):
        body = next((n[2] for n in nodes if n[0] == "ext"), nodes)
        self.run(body, [self.frame(body, True)], True)

    def skip(self):
        raise core.Skip()

    def ctls(self, n):
        return Model.ctls(self, n)

    def collect(self, nodes, f, top):
        for n in nodes:
            if n[0] == "pi":
                for a in frees(ex(n[1], False), "exec")[1]:
                    f.bind(a, "pi")
            elif n[0] == "imp" and not top:
                f.bind(n[2], "imp")
            elif n[0] in ("c", "el"):
                self.collect_ctl(self.ctls(n), n, f, top)

    def collect_ctl(self, ctl, n, f, top):
        for kind, arg in ctl:
            if kind == "for":
                for a in targets(arg[0]):
                    f.bind(a, "for")
            elif kind == "def":
                if not top:
                    f.bind(arg[0], "def")
                return
            elif kind in ("block", "with"):
                return
            top = False
        kinds = [k for k, a in n[3]]
        if not (n[0] == "c" and n[1] == "replace" or "replace" in kinds or "content" in kinds):
            self.collect(n[4], f, top)

    def finish(self, f):
        for name, kinds in f.bound.items():
            if len(kinds) > 1 and ("def" in kinds or "imp" in kinds or "for" in kinds and set(kinds) != {"for"}):
                self.skip()
        return f

    def frame(self, nodes, top=False):
        f = Frame()
        self.collect(nodes, f, top)
        return self.finish(f)

    def frame_ctl(self, ctl, n, names, kind):
        f = Frame()
        for a in names:
            f.bind(a, kind)
        self.collect_ctl(ctl, n, f, False)
        return self.finish(f)

    def use(self, src, frames, mode="eval", check=True):
        src = ex(src, False)
        used, assigned = frees(src, mode)
        comp, inner = inner_scopes(src, mode)
        for name in comp:
            self.collide(frames, name, src, frames[-1:], "comp")
        for name in inner:
            self.collide(frames, name, src, frames, "inner")
        for name in used:
            self.collide(frames, name, src, frames[:-1], "inner")
        if not check:
            return
        for name in used - (assigned if mode == "exec" else set()):
            self.name(name, frames)

    def collide(self, frames, name, src, where, kind):
        """
        A name that one comprehension binds and another inner scope of the same function
        uses from outside is miscompiled by CPython 3.12.3 (inlined comprehensions).
        """
        for f in where:
            getattr(f, kind).setdefault(name, set()).add(src)
            if len(f.comp.get(name, set()) | f.inner.get(name, set())) > 1 and name in f.comp and name in f.inner:
                self.skip()

    def name(self, name, frames):
        for i, f in enumerate(reversed(frames)):
            if name in f.bound:
                if name not in f.active:
                    self.skip()
                if i and len(f.bound[name]) > 1:
                    self.skip()
                return

    def run(self, nodes, frames, top=False):
        for n in nodes:
            k = n[0]
            if k in ("x", "n"):
                self.use(n[1], frames)
            elif k == "pi":
                self.use(n[1], frames, "exec")
                frames[-1].active |= frees(ex(n[1], False), "exec")[1]
            elif k == "imp":
                if not top:
                    frames[-1].active.add(n[2])
            elif k in ("c", "el"):
                self.chain(self.ctls(n), n, frames, top)

    def chain(self, ctl, n, frames, top):
        if not ctl:
            return self.body(n, frames, top)
        (kind, arg), rest = ctl[0], ctl[1:]
        f = frames[-1]
        if kind in ("if", "unless"):
            self.use(arg, frames)
            before = set(f.active)
            self.chain(rest, n, frames, False)
            f.active = before
        elif kind == "for":
            self.use(arg[1], frames)
            before = set(f.active)
            names = set(targets(arg[0]))
            f.active |= names
            self.chain(rest, n, frames, False)
            f.active = before - names
        elif kind == "def":
            for p, d in arg[1] or ():
                if d is not None:
                    self.use(d, frames if not top else [])
            new = self.frame_ctl(rest, n, [p for p, d in arg[1] or ()], "param")
            new.active |= {p for p, d in arg[1] or ()}
            if not top:
                f.active.add(arg[0])
            self.chain(rest, n, (frames if not top else []) + [new], False)
        elif kind == "block":
            for fr in frames:
                if arg in fr.bound:
                    self.skip()
            self.chain(rest, n, [self.frame_ctl(rest, n, (), "")], False)
        elif kind == "with":
            new = self.frame_ctl(rest, n, [a for v, e in arg for a in targets(v)], "with")
            for v, e in arg:
                before = set(new.bound) - new.active
                if "lambda" in e and frees(e)[0] & before:
                    self.skip()
                self.use(e, [new] + frames[:0], check=False)
                for f2 in frames:
                    for name in frees(e)[0]:
                        self.collide(frames, name, e, [f2], "inner")
                for name in frees(e)[0]:
                    self.name(name, frames if name in before else frames + [new])
                new.active |= set(targets(v))
            self.chain(rest, n, frames + [new], False)

    def body(self, n, frames, top):
        ctl = dict(n[3])
        if n[0] == "c" and n[1] == "replace":
            return self.use(n[2], frames)
        if "replace" in ctl:
            return self.use(ctl["replace"], frames)
        if n[0] == "el":
            if ctl.get("strip"):
                self.use(ctl["strip"], frames)
            for name, parts in n[2]:
                for q in parts or ():
                    if q[0] != "t":
                        self.use(q[1], frames)
            if "attrs" in ctl:
                self.use(ctl["attrs"], frames)
        if "content" in ctl:
            self.use(ctl["content"], frames)
        else:
            self.run(n[4], frames, top)
