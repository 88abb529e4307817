"""
Bounded-exhaustive explorer used by every check.

A *suite* is a transition system given by a generator function `gen(choose)`:
every call of choose(options) is a state of the system, every option a
transition, and every complete run (leaf) one behaviour: a template with its
context, a history of operations, a configuration ...  The explorer enumerates
ALL choice sequences (depth first, no sampling); every complete behaviour is
then executed on the real code in /repo by `run(case)`, which compares it with
the reference model and returns None or a message.
"""
import hashlib
import importlib
import importlib.util
import json
import mmap
import os
import pickle
import select
import shutil
import signal
import struct
import subprocess
import sys
import sysconfig
import tempfile
import time
import traceback
import warnings
from time import time as now       # checks can replace time.time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
DEADLINE = {"quick": 420, "thorough": 3600}[TIER]
CASE_LIMIT = 40      # seconds for one case before it counts as non-terminating
MAX_VIOLATIONS = 5

scratch = None       # temporary directory of this run


# ---------------------------------------------------------------- repo setup
class _BufferFinder(object):
    """Makes the freshly compiled extension importable as part of the package."""

    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name == "tonnikala.runtime._buffer":
            if self.path is None:
                raise ImportError("accelerated buffer is disabled")
            return importlib.util.spec_from_file_location(name, self.path)
        return None


def build_extension():
    out = os.path.join(scratch, "_buffer.so")
    src = os.path.join(REPO, "tonnikala/runtime/_buffer.c")
    cmd = ["gcc", "-shared", "-fPIC", "-O1", "-w",
           "-I" + sysconfig.get_paths()["include"], src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("cannot compile _buffer.c: " + r.stderr[-2000:])
    return out


def setup_repo(with_c=True):
    global scratch
    scratch = tempfile.mkdtemp(prefix="tkmc-")
    os.environ["TKMC_SCRATCH"] = scratch
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    if os.path.exists(os.path.join(REPO, "tonnikala/runtime/_buffer.c")) and with_c:
        sys.meta_path.insert(0, _BufferFinder(build_extension()))
    import tonnikala
    where = os.path.realpath(tonnikala.__file__)
    assert where.startswith(os.path.realpath(REPO) + os.sep), where


def cleanup():
    if scratch and os.path.isdir(scratch) and os.path.basename(scratch).startswith("tkmc-"):
        shutil.rmtree(scratch, ignore_errors=True)


# ------------------------------------------------------------------ explorer
class Skip(Exception):
    """raised by a generator for a combination that is outside the property"""


class Explorer(object):
    """Enumerates all choice sequences of gen; counts the states of the choice tree."""

    def __init__(self, gen):
        self.gen = gen
        self.states = 1
        self.leaves = 0
        self.skipped = 0

    def __iter__(self):
        prefix = []          # list of [index, count]
        while True:
            pos = 0
            trace = prefix

            def choose(options):
                nonlocal pos
                n = options if isinstance(options, int) else len(options)
                if n < 1:
                    raise Skip()
                if pos < len(trace):
                    i, m = trace[pos]
                    if m != n:
                        raise RuntimeError("nondeterministic generator: %r vs %r" % (m, n))
                else:
                    i = 0
                    trace.append([0, n])
                    self.states += 1
                pos += 1
                return i if isinstance(options, int) else options[i]

            before = len(prefix)
            try:
                case = self.gen(choose)
                ok = True
            except Skip:
                ok = False
                self.skipped += 1
            del trace[pos:]
            if ok:
                self.leaves += 1
                yield case
            while prefix and prefix[-1][0] + 1 >= prefix[-1][1]:
                prefix.pop()
            if not prefix:
                return
            prefix[-1][0] += 1
            self.states += 1


class Suite(object):
    def __init__(self, name, gen, run, note="", jobs=None):
        self.name, self.gen, self.run, self.note, self.jobs = name, gen, run, note, jobs


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def run_case(suite, case):
    """None or a message; exceptions of the code under test count as violations"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        return suite.run(case)
    except CaseTimeout:
        return "did not terminate within %d s" % CASE_LIMIT
    except Exception:
        return "unexpected exception:\n" + traceback.format_exc()
    finally:
        signal.alarm(0)


outcomes = None
steps = 0


def step(n=1):
    """Counts the operations (loads, renders, calls ...) executed on the real code."""
    global steps
    steps += n


def outcome(value):
    """Called by run functions with what they observed, to count distinct outcomes."""
    if outcomes is not None and len(outcomes) < 2000000:
        outcomes.add(hash(value) & 0xffffffffffff)


def _worker(suite, w, n, wfd, shared, t_end):
    global outcomes, steps
    outcomes = set()
    steps = 0
    ex = Explorer(suite.gen)
    executed, violations, samples, capped = 0, [], [], False
    for idx, case in enumerate(ex):
        if idx % n != w:
            continue
        struct.pack_into("q", shared, 8 * w, idx)
        if now() > t_end:
            capped = True
            break
        msg = run_case(suite, case)
        executed += 1
        if len(samples) < 2 and (executed == 3 or executed == 200):
            samples.append(repr(case)[:600])
        if msg is not None:
            violations.append((case, msg))
            if len(violations) >= MAX_VIOLATIONS:
                capped = True
                break
    data = pickle.dumps(dict(states=ex.states, leaves=ex.leaves, executed=executed,
                             violations=violations, samples=samples, capped=capped,
                             outcomes=outcomes, steps=steps))
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


def explore(suite, t_end):
    n = suite.jobs or JOBS
    shared = mmap.mmap(-1, 8 * n)
    for w in range(n):
        struct.pack_into("q", shared, 8 * w, -1)
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(n):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rfd)
                _worker(suite, w, n, wfd, shared, t_end)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        procs.append((w, pid, rfd))
    chunks = {rfd: [] for _, _, rfd in procs}
    pending = set(chunks)
    while pending:
        for fd in select.select(list(pending), [], [])[0]:
            b = os.read(fd, 1 << 20)
            if b:
                chunks[fd].append(b)
            else:
                pending.discard(fd)
                os.close(fd)
    res = dict(states=0, leaves=0, executed=0, violations=[], samples=[], capped=False, outcomes=set(), steps=0)
    for w, pid, rfd in procs:
        status = os.waitpid(pid, 0)[1]
        if status:
            if os.WIFSIGNALED(status):
                idx = struct.unpack_from("q", shared, 8 * w)[0]
                case = next((c for i, c in enumerate(Explorer(suite.gen)) if i == idx), None)
                res["violations"].append((case, "the process died with signal %d" % os.WTERMSIG(status)))
                res["capped"] = True
                continue
            raise RuntimeError("worker %d of suite %s failed" % (w, suite.name))
        d = pickle.loads(b"".join(chunks[rfd]))
        # every worker walks the same tree, so the counts agree unless capped
        res["states"] = max(res["states"], d["states"])
        res["leaves"] = max(res["leaves"], d["leaves"])
        res["executed"] += d["executed"]
        res["violations"] += d["violations"]
        res["samples"] += d["samples"]
        res["capped"] |= d["capped"]
        res["outcomes"] |= d["outcomes"]
        res["steps"] += d["steps"]
    return res


# ----------------------------------------------------------- findings, output
def case_key(pid, suite, case):
    return hashlib.sha1(repr((pid, suite, case)).encode("utf-8", "backslashreplace")).hexdigest()[:12]


def known_findings(pid):
    """entries `finding: property=<id> key=<key> <what fails>` -> {key: text}"""
    rv = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2].strip()
                key, _, text = rest.partition(" ")
                rv[key.replace("key=", "")] = text
    return rv


def write_replay(pid, suite, case, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, case_key(pid, suite, case)))
    with open(path, "w") as f:
        json.dump(dict(property=pid, suite=suite, case=repr(case), message=msg), f, indent=1)
    return path


def main(argv):
    pid = argv[1]
    warnings.simplefilter("ignore", SyntaxWarning)
    t0 = now()
    try:
        module = importlib.import_module("mc." + pid.lower())
        with_c = getattr(module, "WITH_C", True)
        setup_repo(with_c)
        if hasattr(module, "prepare"):
            module.prepare()
        if len(argv) > 2 and argv[2] == "--replay":
            return replay(module, pid, argv[3])
        return check(module, pid, t0)
    finally:
        cleanup()


def replay(module, pid, path):
    d = json.load(open(path))
    case = eval(d["case"], {"__builtins__": {}}, dict(set=set, frozenset=frozenset))
    for tier in ("quick", "thorough"):
        for suite in module.suites(tier):
            if suite.name == d["suite"]:
                msg = run_case(suite, case)
                print("case: %r" % (case,))
                print("result: %s" % (msg or "property holds"))
                return 1 if msg else 0
    print("no such suite")
    return 2


def check(module, pid, t0):
    t_end = t0 + DEADLINE
    known = known_findings(pid)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
               exhaustive=True, suites={})
    bad, seen_known = [], []
    only = os.environ.get("VERIF_SUITE")
    for suite in module.suites(TIER):
        if only and suite.name != only:
            continue
        t1 = now()
        if hasattr(suite, "explore"):
            res = suite.explore(t_end)
        else:
            res = explore(suite, t_end)
        if res["executed"] == 0 and not res["capped"]:
            raise RuntimeError("suite %s is empty" % suite.name)
        cov["states"] += res["states"]
        # transitions: the operations (loads, renders, calls) made on the real code
        cov["transitions"] += res.get("transitions", res.get("steps") or res["states"] - 1)
        cov["traces_validated_against_impl"] += res["executed"]
        cov["suites"][suite.name] = dict(
            note=suite.note, states=res["states"], behaviours=res["leaves"],
            executed=res["executed"], distinct_outcomes=len(res["outcomes"]),
            complete=not res["capped"], wall_s=round(now() - t1, 2))
        if "extra" in res:
            cov["suites"][suite.name].update(res["extra"])
        cov["samples"] += ["%s: %s" % (suite.name, s) for s in res["samples"][:2]]
        if res["capped"]:
            cov["exhaustive"] = False
        print("%s %-28s states=%d executed=%d outcomes=%d %s%.1fs" % (
            pid, suite.name, res["states"], res["executed"], len(res["outcomes"]),
            "CAPPED " if res["capped"] else "", now() - t1), flush=True)
        for case, msg in res["violations"]:
            k = case_key(pid, suite.name, case)
            if k in known:
                seen_known.append((k, known[k]))
            else:
                bad.append((suite.name, case, msg))
        if len(bad) >= MAX_VIOLATIONS:
            cov["exhaustive"] = False
            break
    if not cov["samples"]:
        cov["samples"] = ["(none)"]
    for k, text in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=TIER, seed=SEED, level="model_checking", coverage=cov,
                       assumptions=list(getattr(module, "ASSUMPTIONS", [])),
                       wall_s=round(now() - t0, 2), violations=len(bad)), f, indent=1)
    for name, case, msg in bad[:MAX_VIOLATIONS]:
        path = write_replay(pid, name, case, msg)
        print("suite %s, case %s\n%s" % (name, repr(case)[:2000], str(msg)[:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
