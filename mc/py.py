"""Running templates on the real Python target through its public interface."""
import itertools
import os
import shutil

from mc import core, tk

_dirs = itertools.count()
_workdir = None


def workdir():
    """an empty directory, private to this worker process"""
    global _workdir
    if _workdir is None or _workdir[0] != os.getpid():
        path = os.path.join(core.scratch, "w%d" % os.getpid())
        os.makedirs(path, exist_ok=True)
        _workdir = (os.getpid(), path)
    return _workdir[1]


def fresh_dir():
    d = workdir()
    for n in os.listdir(d):
        p = os.path.join(d, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    return d


def write_files(d, files):
    for name, src in files.items():
        path = os.path.join(d, name)
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8") as f:
            f.write(src)


def loader(files, **kw):
    from tonnikala.loader import FileLoader
    d = fresh_dir()
    write_files(d, files)
    return FileLoader([d], **kw)


def load1(src, **kw):
    from tonnikala.loader import Loader
    core.step()
    return Loader(**kw).load_string(src)


def load_templates(templates, syntax="tonnikala", **kw):
    """templates: {name: nodes} -> function name -> Template"""
    p = {"tonnikala": "py", "chameleon": "tal"}[syntax]
    if len(templates) == 1:
        (name, nodes), = templates.items()
        t = load1(tk.source(nodes, p), syntax=syntax, **kw)
        return lambda n: t
    ld = loader({n: tk.source(v, p) for n, v in templates.items()}, syntax=syntax, **kw)
    core.step(len(templates))
    return ld.load


def render(t, ctx, funcname="__main__"):
    core.step()
    try:
        return "ok", t.render(ctx, funcname)
    except NameError:
        return "err", "NameError"        # or UnboundLocalError
    except Exception as e:
        return "err", type(e).__name__


def compare(templates, name, ctxs, funcnames=("__main__",), normalize=lambda x: x, **kw):
    """renders with every context on the real code and on the model"""
    translate = kw.get("translatable", False)
    t = load_templates(templates, **kw)(name)
    for ctx in ctxs:
        for fn in funcnames:
            got = render(t, ctx, fn)
            want = tk.model_render(templates, name, ctx, translate=translate, funcname=fn)
            got, want = normalize(got), normalize(want)
            core.outcome(got)
            if got != want:
                srcs = "\n".join("%s: %s" % (k, tk.source(v)) for k, v in templates.items())
                return "%s\nrender %s with %r\n  gives    %r\n  expected %r" % (srcs, fn, ctx, got, want)
    return None
