"""Controlled scheduler: explores the thread schedules of joblib's threading backend.

Exactly one worker thread runs at a time; at every scheduling point (a line of wildwood's Python
code, a point inside its jitted code, a lock operation, the boundary between two tasks, the middle
of an in-place array update) the scheduler decides who goes on.  Schedules are enumerated by
stateless depth-first search, bounded by the number of preemptions; switching when a thread blocks,
ends or finishes a task is free."""
import _thread
import os
import sys
import threading

import numpy as np

from wwmc import instr
from wwmc.common import SeamError

_Lock, _RLock = threading.Lock, threading.RLock
ACTIVE = [None]          # the running Sched
STUCK_S = float(os.environ.get("WWMC_STUCK", "60"))


class Deadlock(Exception):
    pass


class Thr:
    def __init__(self, i):
        self.i = i
        self.sem = threading.Semaphore(0)
        self.state = "new"      # new, ready, blocked, done
        self.lock = None
        self.mute = 0


class Sched:
    def __init__(self, prefix=(), bound=1, shard=(0, 1), lines=True, jit=True, root=None):
        self.prefix, self.bound, self.shard = prefix, bound, shard
        self.lines, self.jit = lines, jit
        self.root = root
        self.trace = []          # (options, chosen)
        self.nsteps = 0
        self.preempt = 0
        self.virgin = True
        self.free = False        # free run: nobody is scheduled any more
        self.by_id = {}
        self.threads = []
        self.queue = []
        self.assigned = []       # (thread, task) in order of start
        self.ended = []
        self.deadlock = None
        self.runs = 0
        self.diverged = False
        self.switches = 0
        self.main = threading.Semaphore(0)

    # ---- choices
    def choose(self, options, cost):
        """index in options; options[0] is the default, the others cost `cost` preemptions"""
        if len(options) > 1 and cost and self.preempt + cost > self.bound:
            options = options[:1]
        if len(options) > 1 and self.virgin and len(self.trace) % self.shard[1] != self.shard[0]:
            self.trace.append((1, 0))
            return 0
        if len(options) == 1:
            self.trace.append((1, 0))
            return 0
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= len(options):
            self.diverged = True
            c = 0
        self.trace.append((len(options), c))
        if c:
            self.virgin = False
            self.preempt += cost
        return c

    def others(self, me):
        """ready threads, and the first of those that have not started (they are alike)"""
        r = [t for t in self.threads if t is not me and t.state == "ready"]
        new = [t for t in self.threads if t.state == "new" and t is not me]
        if new and self.queue:
            r.append(new[0])
        return r

    def switch(self, me, to):
        self.switches += 1
        to.state = "ready"
        to.sem.release()
        me.sem.acquire()

    # ---- called by the threads
    def point(self, cost=1):
        me = self.by_id.get(_thread.get_ident())
        if me is None or self.free or me.mute:
            return
        self.nsteps += 1
        o = self.others(me)
        if not o:
            return
        c = self.choose([me] + o, cost)
        if c:
            self.switch(me, o[c - 1])

    def block(self, lock):
        """the lock is held by another thread"""
        me = self.by_id.get(_thread.get_ident())
        me.state, me.lock = "blocked", lock
        o = self.others(me)
        if not o:
            self.deadlock = "thread %d waits for a lock that is never released" % me.i
            self.end_free()
            raise Deadlock(self.deadlock)
        c = self.choose(o, 0)
        self.switch(me, o[c])
        if self.deadlock:
            raise Deadlock(self.deadlock)

    def end_free(self):
        """let everything run uncontrolled to its end"""
        self.free = True
        for t in self.threads:
            if t.state != "done":
                t.sem.release()

    def leave(self, me):
        me.state = "done"
        if self.free:
            if all(t.state in ("done", "new") for t in self.threads):
                self.main.release()
            return
        o = self.others(me)
        if o:
            c = self.choose(o, 0)
            o[c].state = "ready"
            o[c].sem.release()
            return
        if any(t.state == "blocked" for t in self.threads):
            self.deadlock = "all threads left wait for a lock that is never released"
            self.end_free()
            return
        self.main.release()

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.line

    def worker(self, me):
        me.sem.acquire()
        self.by_id[_thread.get_ident()] = me
        me.state = "ready"
        if self.lines:
            sys.settrace(self.tracer)
        try:
            while self.queue and not self.free:
                job = self.queue.pop(0)
                self.assigned.append((me.i, job.i))
                try:
                    job.out = job.func()
                except BaseException as e:
                    job.exc = e
                job.done = True
                self.ended.append(job.i)
                if job.callback is not None:
                    me.mute += 1
                    try:
                        job.callback(job.out)
                    except BaseException as e:
                        job.exc = job.exc or e
                    me.mute -= 1
                if self.queue:
                    self.point(0)
        finally:
            sys.settrace(None)
            self.leave(me)

    # ---- called by the main thread
    def drain(self, n):
        if not self.queue:
            return
        self.runs += 1
        self.threads = [Thr(i) for i in range(n)]
        self.by_id = {}
        self.main = threading.Semaphore(0)
        ts = [threading.Thread(target=self.worker, args=(t,), daemon=True) for t in self.threads]
        for t in ts:
            t.start()
        instr.POINT[0] = self.point if self.jit else None
        self.threads[0].state = "ready"
        self.threads[0].sem.release()
        if not self.main.acquire(timeout=STUCK_S):
            self.stuck = True
            self.end_free()
            ok = self.main.acquire(timeout=STUCK_S / 2)
            instr.POINT[0] = None
            if ok:
                raise SeamError("a synchronisation primitive the scheduler does not control")
            self.deadlock = "the threads do not end"
        instr.POINT[0] = None
        for t in self.threads:
            if t.state == "new":
                t.state = "done"
                self.free_thread(t)
        if not self.deadlock:
            for t in ts:
                t.join(10)

    def free_thread(self, t):
        t.sem.release()


class CtlLock:
    """threading.Lock under the scheduler"""

    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0
        self.real = _Lock()

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE[0]
        me = s.by_id.get(_thread.get_ident()) if s is not None else None
        if me is None or s.free or me.mute:
            if s is not None and s.deadlock:
                raise Deadlock(s.deadlock)
            if self.reentrant and self.owner == _thread.get_ident():
                self.count += 1
                return True
            ok = self.real.acquire(blocking, timeout)
            if ok:
                self.owner, self.count = _thread.get_ident(), 1
            return ok
        s.point()
        if self.reentrant and self.owner == _thread.get_ident():
            self.count += 1
            return True
        while not self.real.acquire(False):
            if not blocking:
                return False
            s.block(self)
        self.owner, self.count = _thread.get_ident(), 1
        return True

    def release(self):
        if self.count > 1:
            self.count -= 1
            return
        self.owner, self.count = None, 0
        self.real.release()
        s = ACTIVE[0]
        if s is not None and not s.free:
            for t in s.threads:
                if t.state == "blocked" and t.lock is self:
                    t.state, t.lock = "ready", None
            s.point()

    def locked(self):
        return self.real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class CtlRLock(CtlLock):
    reentrant = True


class Racy(np.ndarray):
    """An array whose in-place updates are a read, a scheduling point, and a write."""

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = tuple(np.asarray(x) if isinstance(x, Racy) else x for x in inputs)
        if out is None:
            r = getattr(ufunc, method)(*ins, **kw)
            return r
        s = ACTIVE[0]
        outs = tuple(np.asarray(o) if isinstance(o, Racy) else o for o in out)
        if s is None or method == "at" or not any(isinstance(o, Racy) for o in out):
            getattr(ufunc, method)(*ins, out=outs, **kw)
        else:
            tmp = tuple(np.array(o) for o in outs)
            getattr(ufunc, method)(*ins, out=tmp, **kw)
            s.point()
            for o, t in zip(outs, tmp):
                o[...] = t
        return out[0] if len(out) == 1 else out


class NpProxy:
    """numpy as a module sees it, with result buffers that are Racy"""

    def __init__(self):
        for f in ("zeros", "empty", "ones", "full", "zeros_like", "empty_like"):
            setattr(self, f, self.wrap(getattr(np, f)))

    @staticmethod
    def wrap(f):
        def g(*a, **k):
            r = f(*a, **k)
            return r.view(Racy) if ACTIVE[0] is not None and isinstance(r, np.ndarray) else r
        return g

    def __getattr__(self, k):
        return getattr(np, k)


class ThreadingProxy:
    Lock, RLock = CtlLock, CtlRLock

    def __getattr__(self, k):
        return getattr(threading, k)


class Job:
    def __init__(self, i, func, callback):
        self.i, self.func, self.callback = i, func, callback
        self.done, self.out, self.exc = False, None, None


def make_backend():
    from joblib._parallel_backends import ParallelBackendBase, SequentialBackend, FallbackToBackend, ThreadingBackend

    class CtlBackend(ParallelBackendBase):
        supports_timeout = False
        supports_retrieve_callback = False
        supports_sharedmem = True
        uses_threads = True

        def effective_n_jobs(self, n_jobs):
            if n_jobs == 0:
                raise ValueError("n_jobs == 0 in Parallel has no meaning")
            if n_jobs is None:
                return 1
            return max(1, 8 + 1 + n_jobs) if n_jobs < 0 else n_jobs

        def configure(self, n_jobs=1, parallel=None, **kw):
            n = self.effective_n_jobs(n_jobs)
            if n == 1:
                raise FallbackToBackend(SequentialBackend(nesting_level=self.nesting_level))
            self.parallel, self.n, self.count = parallel, n, 0
            return n

        def apply_async(self, func, callback=None):
            s = ACTIVE[0]
            job = Job(self.count, func, callback)
            self.count += 1
            s.queue.append(job)
            n = self.n

            class Handle:
                def get(self, timeout=None):
                    if not job.done:
                        s.drain(min(n, max(2, len(s.queue))))
                    if s.deadlock:
                        raise Deadlock(s.deadlock)
                    if job.exc is not None:
                        raise job.exc
                    if not job.done:
                        raise RuntimeError("task not run")
                    return job.out
            return Handle()

        def terminate(self):
            s = ACTIVE[0]
            if s is not None:
                s.queue.clear()

        def abort_everything(self, ensure_ready=True):
            self.terminate()

    def factory(**kw):
        return CtlBackend(**kw) if ACTIVE[0] is not None else ThreadingBackend(**kw)
    return factory


def install(racy_modules=("wildwood.forest", "wildwood.tree")):
    """Patches joblib's threading backend, the locks and the buffers as wildwood's modules see them."""
    import joblib.parallel as jp
    name = getattr(jp, "DEFAULT_THREAD_BACKEND", "threading")
    jp.BACKENDS[name] = make_backend()
    tp = ThreadingProxy()
    npx = NpProxy()
    for mn, mod in list(sys.modules.items()):
        if mod is None or not (mn == "wildwood" or mn.startswith("wildwood.")):
            continue
        for k, v in list(vars(mod).items()):
            if v is threading:
                setattr(mod, k, tp)
            elif v is _Lock:
                setattr(mod, k, CtlLock)
            elif v is _RLock:
                setattr(mod, k, CtlRLock)
            elif v is np and mn in racy_modules:
                setattr(mod, k, npx)


def run(fn, prefix=(), **kw):
    import wildwood
    s = Sched(prefix, root=os.path.dirname(os.path.realpath(wildwood.__file__)) + os.sep, **kw)
    ACTIVE[0] = s
    exc = res = None
    try:
        res = fn()
    except SeamError:
        raise
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        exc = e
    finally:
        ACTIVE[0] = None
        instr.POINT[0] = None
    return s, res, exc


def explore(fn, judge, bound=1, shard=(0, 1), limit=None, **kw):
    """Runs fn under every schedule; judge(sched, result, exception) raises Violation.  Returns counters."""
    prefix = []
    n = points = 0
    assigned = set()
    while True:
        s, res, exc = run(fn, prefix, bound=bound, shard=shard, **kw)
        n += 1
        points = max(points, s.nsteps)
        assigned.add((tuple(s.assigned), tuple(s.ended)))
        judge(s, res, exc)
        if s.diverged or len(s.trace) < len(prefix):
            raise SeamError("the schedule is not reproducible")
        i = len(s.trace) - 1
        while i >= 0 and s.trace[i][1] + 1 >= s.trace[i][0]:
            i -= 1
        if i < 0 or (limit and n >= limit):
            return dict(schedules=n, points=points, assignments=assigned, runs=s.runs, complete=i < 0)
        prefix = [c for _, c in s.trace[:i]] + [s.trace[i][1] + 1]
