"""
A controlled scheduler for real threads: only one thread runs at a time, and it can lose
control only at scheduling points - the lines (or bytecodes) of the traced files.  Locks of
the threading module are replaced by ones that the scheduler knows.
"""
import itertools
import os
import sys
import threading
import _thread

current = None                 # the scheduler in charge
_alloc = _thread.allocate_lock
_ident = _thread.get_ident


class Deadlock(Exception):
    pass


class CoopLock(object):
    """Lock and RLock; blocking is a decision of the scheduler"""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            s = current
            if s is None or me not in s.by_ident:
                raise Deadlock("a lock is held that nobody will release")
            s.block(s.by_ident[me], self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.reentrant and self.owner != _ident() or self.owner is None:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if current is not None:
                current.unblock(self)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _ident()


class CoopRLock(CoopLock):
    reentrant = True


def install():
    """before the code under test is imported"""
    threading.Lock = CoopLock
    threading.RLock = CoopRLock


class Thread(object):
    def __init__(self, i, func):
        self.i, self.func = i, func
        self.sem = _alloc()
        self.sem.acquire()
        self.state = "ready"           # ready, blocked, stuck, done
        self.waiting = None
        self.result = None


class Scheduler(object):
    def __init__(self, funcs, order, plan, traced, opcodes=False):
        """
        order: which of the threads that can run is chosen when the running one ends or blocks;
        plan: {step: thread} the preemptions; traced: function of a filename
        """
        self.threads = [Thread(i, f) for i, f in enumerate(funcs)]
        self.order, self.plan, self.traced, self.opcodes = order, plan, traced, opcodes
        self.by_ident = {}
        self.step = 0
        self.running = None
        self.finished = _alloc()
        self.finished.acquire()
        self.deadlock = None
        self.switched = 0
        self.who = []                  # the thread that ran at each step
        self._known = {}

    # tracing
    def call(self, frame, event, arg):
        fn = frame.f_code.co_filename
        t = self._known.get(fn)
        if t is None:
            t = self._known[fn] = bool(self.traced(fn))
        if not t:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.line

    def line(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point()
        return self.line

    def point(self):
        me = self.by_ident[_ident()]
        if self.running is not me:
            # it was really blocked, and others took over
            me.state = "ready"
            me.sem.acquire()
        k = self.step
        self.step += 1
        self.who.append(me.i)
        to = self.plan.get(k)
        if to is not None:
            t = self.threads[to]
            if t is not me and t.state == "ready":
                self.switched += 1
                self.switch(me, t)

    # scheduling; only the running thread calls these
    def switch(self, me, to):
        self.running = to
        to.sem.release()
        me.sem.acquire()

    def next(self):
        for i in self.order:
            if self.threads[i].state == "ready":
                return self.threads[i]

    def block(self, me, lock):
        me.state, me.waiting = "blocked", lock
        t = self.next()
        if t is None:
            if any(x.state == "stuck" for x in self.threads):
                self.running = None
                me.sem.acquire()
                return
            self.deadlock = [x.i for x in self.threads if x.state == "blocked"]
            self.finished.release()
            me.sem.acquire()           # forever
        self.switch(me, t)

    def unblock(self, lock):
        for t in self.threads:
            if t.waiting is lock:
                t.state, t.waiting = "ready", None
                if self.running is None:
                    self.running = t
                    t.sem.release()

    def main(self, t):
        self.by_ident[_ident()] = t
        t.sem.acquire()
        sys.settrace(self.call)
        try:
            t.result = t.func()
        except BaseException as e:
            t.result = "unexpected", type(e).__name__, str(e)
        finally:
            sys.settrace(None)
        if self.running is not t:
            t.state = "ready"
            t.sem.acquire()
        t.state = "done"
        n = self.next()
        if n is not None:
            self.running = n
            n.sem.release()
        elif all(x.state == "done" for x in self.threads):
            self.finished.release()
        elif not any(x.state == "stuck" for x in self.threads):
            self.deadlock = [x.i for x in self.threads if x.state == "blocked"]
            self.finished.release()
        else:
            self.running = None

    def run(self):
        global current
        assert current is None
        current = self
        try:
            for t in self.threads:
                _thread.start_new_thread(self.main, (t,))
            while len(self.by_ident) < len(self.threads):
                os.sched_yield()
            first = self.next()
            self.running = first
            first.sem.release()
            last, idle = -1, 0
            while not self.finished.acquire(timeout=1.0):
                if self.step != last:
                    last, idle = self.step, 0
                    continue
                idle += 1
                if idle >= 8:
                    self.deadlock = [x.i for x in self.threads if x.state != "done"]
                    break
                if idle == 2 and self.running is not None:
                    # it waits for something unknown: let the others run
                    self.running.state = "stuck"
                    n = self.next()
                    if n is not None:
                        self.running = n
                        n.sem.release()
        finally:
            current = None
        return [t.result for t in self.threads]


def merges(lengths):
    """all ways of merging sequences of the given lengths"""
    if not any(lengths):
        yield ()
        return
    for i, n in enumerate(lengths):
        if n:
            rest = list(lengths)
            rest[i] -= 1
            for m in merges(rest):
                yield (i,) + m


def orders(n):
    return list(itertools.permutations(range(n)))
