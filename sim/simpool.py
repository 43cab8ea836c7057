"""A process pool whose scheduling is decided by the simulator.

Stands in for the pool class that `pathos` takes from `multiprocess`. Workers are real forked processes
(they inherit the state of the process at the moment the pool is created, tasks and results are really
pickled), but at most one of them runs at a time, and the simulator decides in virtual time which worker
takes which task, how long it takes, and in which order results arrive.
"""
import os
import pickle
import signal
import socket
import sys

from . import core
from .core import rng_of

RUN, CLOSE, TERMINATE = "RUN", "CLOSE", "TERMINATE"


class Sched:
    """scheduling decisions of one run, a pure function of the plan"""

    def __init__(self, ctx, seed=0, dist="uniform"):
        self.ctx, self.seed, self.dist = ctx, seed, dist
        self.jobs = 0
        self.interrupt_at = None      # index of the result whose retrieval is interrupted (Ctrl-C)
        self.interrupted = False
        self.pids = []

    def begin_op(self, op, interrupt_at=None):
        self.opid = op
        self.jobs = 0
        self.interrupt_at = interrupt_at
        self.interrupted = False

    opid = "-"

    def plan(self, ntasks, nworkers):
        """-> list of (start, end, worker) per task, tasks being handed out in order to idle workers"""
        rng = rng_of(self.seed, self.opid, self.jobs)
        self.jobs += 1
        speeds = [1.0] * nworkers
        if self.dist == "one_slow":
            speeds[rng.randrange(nworkers)] = 20.0
        elif self.dist == "one_fast":
            speeds = [20.0] * nworkers
            speeds[rng.randrange(nworkers)] = 1.0
        free = [rng.random() * 0.01 for _ in range(nworkers)]
        out = []
        for t in range(ntasks):
            w = min(range(nworkers), key=lambda i: (free[i], i))
            if self.dist == "reverse":
                d = float(ntasks - t)
            elif self.dist == "skew":
                d = rng.random() ** 6 * 100 + 1e-3
            else:
                d = 0.1 + rng.random()
            start, end = free[w], free[w] + d * speeds[w]
            free[w] = end
            out.append((start, end, w))
        ctx = self.ctx
        if out:
            ctx.vtime += max(e for _, e, _ in out)
        ctx.count("pool_jobs")
        ctx.count("pool_tasks", ntasks)
        order = sorted(range(ntasks), key=lambda t: out[t][1])
        if order != list(range(ntasks)):
            ctx.count("fault:out_of_order_completion")
        ctx.log("schedule", self.opid, ntasks, [w for _, _, w in out], order)
        return out

    wait_fault = None        # (countdown over all retrievals, what to do)

    def retrieval(self, i):
        if self.wait_fault is not None:
            n, how = self.wait_fault
            self.wait_fault = (n - 1, how)
            if n <= 1:
                self.wait_fault = None
                self.interrupted = True
                if how == "kill":
                    self.ctx.count("fault:killed_while_waiting")
                    os._exit(137)
                self.ctx.count("fault:interrupt_while_waiting")
                raise KeyboardInterrupt
        if self.interrupt_at is not None and i == self.interrupt_at:
            self.interrupt_at = None
            self.interrupted = True
            self.ctx.count("fault:interrupt_while_waiting")
            raise KeyboardInterrupt

    def killall(self):
        for pid in self.pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass


SCHED = None     # set by install()


def _dumps(obj):
    from multiprocess.reduction import ForkingPickler
    return bytes(ForkingPickler.dumps(obj))


def _worker(sock):
    from multiprocess.reduction import ForkingPickler
    fd = sock.fileno()
    while True:
        try:
            blob = core.read_msg(fd)
        except (EOFError, OSError):
            os._exit(0)
        out = []
        try:
            func, chunk = ForkingPickler.loads(blob)
        except BaseException as e:
            core.write_msg(fd, _dumps((False, e)))
            continue
        try:
            vals = []
            for args in chunk:
                vals.append(func(*args))
            out = (True, vals)
        except Exception as e:
            out = (False, e)
        try:
            res = _dumps(out)
        except Exception as e:
            res = _dumps((False, RuntimeError("Error sending result: %r" % e)))
        core.write_msg(fd, res)


class SimPool:

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._n = processes or 8
        self._state = RUN
        self._socks = None
        self._started = False
        pairs = [socket.socketpair() for _ in range(self._n)]
        ctl, ctl_c = socket.socketpair()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            # the nursery: keeps the state of this moment, and forks the workers when they are needed
            try:
                core.die_with_parent()
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                from . import faults
                faults.forget_lines()
                for a, b in pairs:
                    a.close()
                ctl.close()
                if not ctl_c.recv(1):
                    os._exit(0)
                for i, (a, b) in enumerate(pairs):
                    if os.fork() == 0:
                        core.die_with_parent()
                        if initializer is not None:
                            initializer(*initargs)
                        _worker(b)
                        os._exit(0)
                for a, b in pairs:
                    b.close()
                ctl_c.recv(1)     # until the pool is gone
            finally:
                os._exit(0)
        self._pid = pid
        SCHED.pids.append(pid)
        for a, b in pairs:
            b.close()
        ctl_c.close()
        self._socks = [a for a, b in pairs]
        self._ctl = ctl
        SCHED.ctx.count("pools_created")

    # ---- plumbing
    def _check_running(self):
        if self._state != RUN:
            raise ValueError("Pool not running")

    def _run(self, func, chunks):
        """execute the chunks as scheduled -> [(end, ok, value)] per chunk"""
        if not self._started:
            self._ctl.send(b"x")
            self._started = True
        plan = SCHED.plan(len(chunks), self._n)
        res = [None] * len(chunks)
        for t in sorted(range(len(chunks)), key=lambda t: (plan[t][0], t)):
            try:
                blob = _dumps((func, chunks[t]))
            except Exception as e:
                res[t] = (plan[t][1], False, e)
                continue
            fd = self._socks[plan[t][2]].fileno()
            core.write_msg(fd, blob)
            try:
                ans = core.read_msg(fd, core.REAL_MONO() + 200)
            except (EOFError, TimeoutError) as e:
                raise core.HarnessError("pool worker lost: %r" % (e,))
            from multiprocess.reduction import ForkingPickler
            ok, val = ForkingPickler.loads(ans)
            res[t] = (plan[t][1], ok, val)
        return res

    @staticmethod
    def _wrap(chunks):
        return [[(x,) for x in c] for c in chunks]

    # ---- the interface of multiprocess.pool.Pool
    def _map(self, func, iterable, chunksize, star=False):
        self._check_running()
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._n * 4)
            if extra:
                chunksize += 1
        if not items:
            return []
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        if not star:
            chunks = self._wrap(chunks)
        res = self._run(func, chunks)
        for k in range(len(items)):
            SCHED.retrieval(k)
        fails = [r for r in res if not r[1]]
        if fails:
            raise min(fails, key=lambda r: r[0])[2]
        return [v for r in res for v in r[2]]

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize)

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, star=True)

    def _imap(self, func, iterable, chunksize, ordered):
        self._check_running()
        items = list(iterable)
        chunks = self._wrap([items[i:i + chunksize] for i in range(0, len(items), chunksize)])
        res = self._run(func, chunks)
        if not ordered:
            res = sorted(res, key=lambda r: r[0])
        return _Results(res)

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Async(lambda: self._map(func, iterable, chunksize), callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Async(lambda: self._map(func, iterable, chunksize, True), callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        self._check_running()
        (_, ok, val), = self._run(_Apply(func, kwds), [[(tuple(args),)]])
        if not ok:
            raise val
        return val[0]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return _Async(lambda: self.apply(func, args, kwds), callback, error_callback)

    def close(self):
        if self._state == RUN:
            self._state = CLOSE

    def _gone(self):
        if self._socks is not None:
            for s in self._socks + [self._ctl]:
                s.close()
            self._socks = None
            try:
                os.kill(self._pid, signal.SIGKILL)
                os.waitpid(self._pid, 0)
            except OSError:
                pass

    def terminate(self):
        self._state = TERMINATE
        self._gone()

    def join(self):
        if self._state == RUN:
            raise ValueError("Pool is still running")
        self._gone()

    def __enter__(self):
        self._check_running()
        return self

    def __exit__(self, *exc):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class _Apply:
    def __init__(self, func, kwds):
        self.func, self.kwds = func, kwds

    def __call__(self, args):
        return self.func(*args, **self.kwds)


class _Results:
    """iterator over results, raising the error of a failed item at its place"""

    def __init__(self, res):
        self.items = []
        for _, ok, val in res:
            if ok:
                self.items.extend((True, v) for v in val)
            else:
                self.items.append((False, val))
        self.i = 0

    def __iter__(self):
        return self

    def next(self, timeout=None):
        return self.__next__()

    def __next__(self):
        if self.i >= len(self.items):
            raise StopIteration
        i = self.i
        SCHED.retrieval(i)
        self.i += 1
        ok, val = self.items[i]
        if ok:
            return val
        raise val


class _Async:
    def __init__(self, thunk, callback=None, error_callback=None):
        try:
            self.val, self.ok = thunk(), True
            if callback:
                callback(self.val)
        except Exception as e:
            self.val, self.ok = e, False
            if error_callback:
                error_callback(e)

    def get(self, timeout=None):
        if self.ok:
            return self.val
        raise self.val

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.ok


def install(ctx, seed=0, dist="uniform"):
    """put the simulated pool below pathos (in this process)"""
    global SCHED
    import pathos.multiprocessing as pm
    SCHED = Sched(ctx, seed, dist)
    pm.Pool = SimPool
    pm.cpu_count = lambda: 3
    import multiprocess
    import multiprocess.pool
    import multiprocessing
    import multiprocessing.pool
    multiprocess.Pool = SimPool
    multiprocessing.Pool = SimPool
    multiprocess.pool.Pool = SimPool
    multiprocessing.pool.Pool = SimPool
    return SCHED
