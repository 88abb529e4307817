"""Evaluation of templates in interpreters of their own, each with its own hash seed."""
import os
import pickle
import struct
import subprocess
import sys

from mc import core


def evaluate(case):
    """everything that can be observed of templates: case is one of
    ("py", {name: source}, name, contexts, functions, options)
    ("js", source, minify)
    """
    if case[0] == "js":
        from tonnikala.loader import JSLoader
        try:
            return "ok", JSLoader(minify=case[2]).load_string(case[1])
        except Exception as e:
            return "err", type(e).__name__, str(e)
    _, files, name, ctxs, funcs, options = case
    from tonnikala.loader import FileLoader, Loader
    try:
        if len(files) == 1 and not options.get("file"):
            t = Loader(syntax=options.get("syntax", "tonnikala"), translatable=options.get("translatable", False)).load_string(files[name])
        else:
            t = FileLoader([write(files)], syntax=options.get("syntax", "tonnikala")).load(name)
    except Exception as e:
        return "err", type(e).__name__, str(e), getattr(e, "lineno", None)
    rv = []
    for ctx in ctxs:
        for f in funcs:
            try:
                rv.append(("ok", str(t.render(dict(ctx), f))))
            except Exception as e:
                rv.append(("err", type(e).__name__, str(e)))
    return tuple(rv)


_dir = None


def write(files):
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        _dir = os.getpid(), os.path.join(core.scratch, "det%d" % os.getpid())
        os.makedirs(_dir[1], exist_ok=True)
    for f in os.listdir(_dir[1]):
        os.unlink(os.path.join(_dir[1], f))
    for n, s in files.items():
        with open(os.path.join(_dir[1], n), "w", encoding="utf-8") as f:
            f.write(s)
    return _dir[1]


class Child(object):
    """an interpreter of its own"""

    def __init__(self, seed):
        env = dict(os.environ, PYTHONHASHSEED=str(seed), TKMC_SCRATCH=core.scratch, PYTHONPATH=core.VERIF)
        self.p = subprocess.Popen([sys.executable, "-m", "mc.det"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=core.VERIF)

    def __call__(self, cases):
        core.step(len(cases))
        data = pickle.dumps(cases)
        self.p.stdin.write(struct.pack("q", len(data)) + data)
        self.p.stdin.flush()
        head = self.p.stdout.read(8)
        if len(head) < 8:
            return [("err", "the interpreter died")] * len(cases)
        return pickle.loads(self.p.stdout.read(struct.unpack("q", head)[0]))

    def close(self):
        self.p.stdin.close()
        self.p.wait()


_children = {}


def child(key, seed):
    """one that is kept by this process"""
    k = os.getpid(), key, seed
    if k not in _children or _children[k].p.poll() is not None:
        _children[k] = Child(seed)
    return _children[k]


def main():
    core.scratch = os.environ["TKMC_SCRATCH"]
    sys.pycache_prefix = os.path.join(core.scratch, "pyc")
    sys.path.insert(0, core.REPO)
    so = os.path.join(core.scratch, "_buffer.so")
    if os.path.exists(so):
        sys.meta_path.insert(0, core._BufferFinder(so))
    import warnings
    warnings.simplefilter("ignore")
    out, sys.stdout = os.fdopen(os.dup(1), "wb"), sys.stderr
    from mc import js        # noqa: F401  makes slimit faster
    while True:
        head = sys.stdin.buffer.read(8)
        if len(head) < 8:
            break
        cases = pickle.loads(sys.stdin.buffer.read(struct.unpack("q", head)[0]))
        data = pickle.dumps([evaluate(c) for c in cases])
        out.write(struct.pack("q", len(data)) + data)
        out.flush()


if __name__ == "__main__":
    main()
