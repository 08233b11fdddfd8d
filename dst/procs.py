"""
Simulated worker processes.

While a simulation is active, the pools of multiprocessing and concurrent.futures hand out workers that
are cooperative tasks of one scheduler: exactly one runs at a time and control only moves at simulated
I/O (a machine job, a file system request) or when a task blocks.  Who runs next is read from the
scenario's plan.  Work crosses to a "process" pool through real pickling, so a worker has its own copy
of everything, exactly as a forked or spawned process would see its task.
"""
import pickle
import threading

from dst.core import SimulatedStop, Violation

ACTIVE = None


class Stopped(SimulatedStop):
    """The pool was terminated while the worker was busy."""


class Proc:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.gate = threading.Semaphore(0)
        self.done = False
        self.cond = None
        self.error = None
        self.result = None
        self.killed = False
        self.thread = None
        self.job = None

    def runnable(self):
        return not self.done and (self.cond is None or self.killed or self.cond())


class Procs:
    def __init__(self, plan, ctx):
        self.plan = list(plan)
        self.ctx = ctx
        self.procs = []
        self.current = None
        self.switches = 0
        self.points = 0
        self.trace = []
        self.finished = []  # tasks in the order they ended: (what the worker noted as its job, succeeded)
        self.fatal = None
        self.main = threading.Semaphore(0)

    def spawn(self, name, fn):
        p = Proc(name, fn)
        self.procs.append(p)
        p.thread = threading.Thread(target=self._body, args=(p,), daemon=True)
        p.thread.start()
        return p

    def run(self, fn):
        """Run fn as the parent process until it and every worker is finished."""
        global ACTIVE
        ACTIVE = self
        try:
            p = self.spawn("parent", fn)
            self.current = p
            p.gate.release()
            self.main.acquire()
            for q in self.procs:
                q.thread.join()
        finally:
            ACTIVE = None
        if self.fatal is not None:
            raise self.fatal
        if p.error is not None:
            raise p.error
        return p.result

    def _body(self, p):
        p.gate.acquire()
        try:
            if not p.killed:
                p.result = p.fn()
        except Stopped:
            pass
        except BaseException as e:
            p.error = e
            if isinstance(e, Violation) and self.fatal is None:
                self.fatal = e
        finally:
            p.done = True
            self._leave()

    def _leave(self):
        nxt = self._pick(None)
        if nxt is None:
            alive = [q for q in self.procs if not q.done]
            if alive:  # everybody waits for somebody
                if self.fatal is None and not self.procs[0].done:
                    self.fatal = Violation("hang", "blocked for ever: " + ", ".join(q.name for q in alive))
                for q in alive:
                    q.killed = True
                nxt = alive[0]
            else:
                self.main.release()
                return
        self._go(nxt)

    def _go(self, nxt):
        self.current = nxt
        self.switches += 1
        self.trace.append(self.procs.index(nxt))
        nxt.gate.release()

    def _pick(self, me):
        others = [q for q in self.procs if q is not me and q.runnable()]
        if not others:
            return None
        k = self.plan.pop(0) if self.plan else 0
        return others[k % len(others)]

    def point(self, *what):
        """A place where the running task may be preempted (plan value 0: it goes on)."""
        me = self.current
        if me is None or me.thread is not threading.current_thread():
            return
        self.points += 1
        if me.killed:
            raise Stopped()
        k = self.plan.pop(0) if self.plan else 0
        if k == 0:
            return
        others = [q for q in self.procs if q is not me and q.runnable()]
        if not others:
            return
        self._go(others[(k - 1) % len(others)])
        me.gate.acquire()
        if me.killed:
            raise Stopped()

    def wait(self, cond):
        """Block the running task until cond() holds."""
        me = self.current
        while not cond():
            me.cond = cond
            nxt = self._pick(me)
            if nxt is None:
                if self.fatal is None and not self.procs[0].done:
                    self.fatal = Violation("hang", f"{me.name} waits for something that will never happen")
                raise Stopped()
            self._go(nxt)
            me.gate.acquire()
            me.cond = None
            if me.killed:
                raise Stopped()


class Result:
    def __init__(self):
        self.ready_ = False
        self.value = None
        self.error = None

    def get(self, timeout=None):
        ACTIVE.wait(lambda: self.ready_)
        if self.error is not None:
            raise self.error
        return self.value

    def wait(self, timeout=None):
        ACTIVE.wait(lambda: self.ready_)

    def ready(self):
        return self.ready_

    def successful(self):
        return self.ready_ and self.error is None


class Iter:
    """What Pool.imap returns: an iterator that survives a failing task, with next(timeout)."""

    def __init__(self, gets):
        self._gets = iter(gets)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._gets)()

    def next(self, timeout=None):
        return self.__next__()


class SimPool:
    """multiprocessing.Pool / ThreadPool."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, *a, copy=True, **k):
        self.n = processes or 4
        self.copy = copy
        self.queue = []
        self.closed = False
        self.dead = False
        self.init = (initializer, initargs)
        self.workers = [ACTIVE.spawn(f"worker{i}", self._worker) for i in range(self.n)]

    def _worker(self):
        if self.init[0] is not None:
            self.init[0](*self.init[1])
        while True:
            ACTIVE.wait(lambda: self.queue or self.closed or self.dead)
            if self.dead or not self.queue:
                return
            chunk, blob = self.queue.pop(0)
            me = ACTIVE.current
            me.job = None
            try:
                outs = []
                for fn, args, kw in pickle.loads(blob) if self.copy else blob:
                    me.job = None
                    ACTIVE.point("task start")
                    outs.append(fn(*args, **kw))
                    ACTIVE.finished.append((me.job, True))
                ACTIVE.point("task end")
                outs = pickle.loads(pickle.dumps(outs)) if self.copy else outs
                for res, out in zip(chunk, outs):
                    res.value = out
            except SimulatedStop:
                raise
            except BaseException as e:  # one failing job costs the results of the whole chunk
                if isinstance(e, Violation) and ACTIVE.fatal is None:
                    ACTIVE.fatal = e
                ACTIVE.ctx.fire("worker_failed")
                ACTIVE.finished.append((me.job, False))
                for res in chunk:
                    res.error = e
            for res in chunk:
                res.ready_ = True

    def _send(self, fn, args, kw=None):
        return self._chunk([(fn, tuple(args), kw or {})])[0]

    def _chunk(self, jobs):
        chunk = [Result() for _ in jobs]
        blob = pickle.dumps(jobs) if self.copy else jobs
        if ACTIVE is not None:
            ACTIVE.ctx.add("worker_tasks")
        self.queue.append((chunk, blob))
        return chunk

    def _jobs(self, func, argss, size):
        """One task per chunk of jobs, as the real pools cut them (None: a quarter of each worker's share)."""
        jobs = [(func, tuple(a), {}) for a in argss]
        if size is None:
            size = -(-len(jobs) // (4 * self.n))
        size = max(1, size)
        return [r for k in range(0, len(jobs), size) for r in self._chunk(jobs[k:k + size])]

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        r = self._send(func, args, kwds)
        if callback is not None or error_callback is not None:
            ACTIVE.spawn("callback", lambda: self._call_back(r, callback, error_callback))
        return r

    def _call_back(self, r, ok, bad):
        r.wait()
        if r.error is None and ok:
            ok(r.value)
        if r.error is not None and bad:
            bad(r.error)

    def apply(self, func, args=(), kwds=None):
        return self._send(func, args, kwds).get()

    def _all(self, rs):
        out = Result()
        ACTIVE.wait(lambda: all(r.ready_ for r in rs))
        for r in rs:
            if r.error is not None:
                raise r.error
        return [r.value for r in rs]

    def map(self, func, iterable, chunksize=None):
        return self._all(self._jobs(func, [(x,) for x in iterable], chunksize))

    def starmap(self, func, iterable, chunksize=None):
        return self._all(self._jobs(func, iterable, chunksize))

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._lazy(self._jobs(func, [(x,) for x in iterable], chunksize), callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._lazy(self._jobs(func, iterable, chunksize), callback, error_callback)

    def _lazy(self, rs, ok, bad):
        pool = self

        class Lazy(Result):
            def get(self, timeout=None):
                return pool._all(rs)

            def wait(self, timeout=None):
                ACTIVE.wait(lambda: all(r.ready_ for r in rs))

            def ready(self):
                return all(r.ready_ for r in rs)

        return Lazy()

    def imap(self, func, iterable, chunksize=1):
        if chunksize < 1:
            raise ValueError(f"Chunksize must be 1+, not {chunksize}")
        rs = self._jobs(func, [(x,) for x in iterable], chunksize)
        if chunksize > 1:  # a plain generator in the real pool: over after its first failure
            return (r.get() for r in rs)
        return Iter(r.get for r in rs)

    def imap_unordered(self, func, iterable, chunksize=1):
        if chunksize < 1:
            raise ValueError(f"Chunksize must be 1+, not {chunksize}")
        rs = self._jobs(func, [(x,) for x in iterable], chunksize)

        def it():
            left = list(rs)
            while left:
                ACTIVE.wait(lambda: any(r.ready_ for r in left))
                done = [r for r in left if r.ready_]
                k = ACTIVE.plan.pop(0) if ACTIVE.plan else 0
                r = done[k % len(done)]
                left.remove(r)
                yield r.get

        return (get() for get in it()) if chunksize > 1 else Iter(it())

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = self.dead = True
        for w in self.workers:
            w.killed = True

    def join(self):
        ACTIVE.wait(lambda: all(w.done for w in self.workers))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()
        return False


class SimFuture:
    def __init__(self, res):
        self.res = res

    def result(self, timeout=None):
        return self.res.get()

    def exception(self, timeout=None):
        self.res.wait()
        return self.res.error

    def done(self):
        return self.res.ready_

    def add_done_callback(self, fn):
        def body():
            self.res.wait()
            fn(self)

        ACTIVE.spawn("callback", body)

    def cancel(self):
        return False


class SimExecutor:
    """concurrent.futures.ProcessPoolExecutor / ThreadPoolExecutor."""

    def __init__(self, max_workers=None, *a, copy=True, initializer=None, initargs=(), **k):
        self.pool = SimPool(max_workers, initializer, initargs, copy=copy)

    def submit(self, fn, *a, **k):
        return SimFuture(self.pool._send(fn, a, k))

    def map(self, fn, *its, timeout=None, chunksize=1):
        rs = self.pool._jobs(fn, zip(*its), chunksize)
        return (r.get() for r in rs)

    def shutdown(self, wait=True, cancel_futures=False):
        self.pool.close()
        if wait:
            self.pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


def install():
    import concurrent.futures as cf
    import multiprocessing
    import multiprocessing.context
    import multiprocessing.pool

    if getattr(multiprocessing.Pool, "_dst", False):
        return
    real_pool = multiprocessing.Pool
    real_ctx_pool = multiprocessing.context.BaseContext.Pool

    def Pool(*a, **k):
        return real_pool(*a, **k) if ACTIVE is None else SimPool(*a, **k)

    def ctx_pool(self, *a, **k):
        return real_ctx_pool(self, *a, **k) if ACTIVE is None else SimPool(*a, **k)

    Pool._dst = True
    multiprocessing.Pool = Pool
    multiprocessing.context.BaseContext.Pool = ctx_pool

    def dispatch(mod, name, sim, copy):
        real = getattr(mod, name)

        class Seam(real):
            def __new__(cls, *a, **k):
                if ACTIVE is not None:
                    return sim(*a, copy=copy, **k)
                return super().__new__(cls)

        Seam.__name__ = Seam.__qualname__ = name
        setattr(mod, name, Seam)

    dispatch(multiprocessing.pool, "ThreadPool", SimPool, False)
    dispatch(multiprocessing.pool, "Pool", SimPool, True)
    dispatch(cf, "ProcessPoolExecutor", SimExecutor, True)
    dispatch(cf, "ThreadPoolExecutor", SimExecutor, False)
    real_completed, real_wait = cf.as_completed, cf.wait

    def as_completed(fs, timeout=None):
        fs = list(fs)
        if ACTIVE is None or not fs or not isinstance(fs[0], SimFuture):
            return real_completed(fs, timeout)

        def it():
            left = list(fs)
            while left:
                ACTIVE.wait(lambda: any(f.done() for f in left))
                done = [f for f in left if f.done()]
                k = ACTIVE.plan.pop(0) if ACTIVE.plan else 0
                f = done[k % len(done)]
                left.remove(f)
                yield f

        return it()

    def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
        fs = list(fs)
        if ACTIVE is None or not fs or not isinstance(fs[0], SimFuture):
            return real_wait(fs, timeout, return_when)
        ACTIVE.wait(lambda: all(f.done() for f in fs))
        return set(fs), set()

    cf.as_completed, cf.wait = as_completed, wait
