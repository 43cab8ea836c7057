"""Fault injectors: interrupts and crashes at a chosen line, failing storage, failing evaluations, a jumping clock."""
import errno
import os
import resource
import signal
import sys
import time
import zlib

import numpy as np

from . import core

TOOL = 4
PKG = os.path.realpath(os.path.join(core.REPO, "pydsge")) + os.sep


class LineFault:
    """raise `exc` (or end the process) when the n-th line of the watched files is about to be executed"""

    def __init__(self, n, exc=KeyboardInterrupt, files=(PKG,), crash=False):
        self.n, self.exc, self.files, self.crash = n, exc, tuple(files), crash
        self.count = 0
        self.fired = None
        self.on_fire = None

    def _cb(self, code, line):
        if self.fired:
            return
        fn = code.co_filename
        if not (fn.startswith(self.files) or os.path.realpath(fn).startswith(self.files)):
            return sys.monitoring.DISABLE
        self.count += 1
        if self.count == self.n:
            self.fired = "%s:%s" % (os.path.basename(fn), code.co_name)
            if self.on_fire:
                self.on_fire()
            if self.crash:
                os._exit(137)
            raise self.exc

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "sim")
        mon.register_callback(TOOL, mon.events.LINE, self._cb)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
        return False


def forget_lines():
    """no line faults in this (worker) process"""
    mon = sys.monitoring
    if mon.get_tool(TOOL):
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)


class Turns:
    """processes that execute some lines of the watched files when it is their turn, one at a time"""

    def __init__(self, jobs, files):
        self.jobs, self.files = jobs, tuple(files)

    def _child(self, fn, rfd, wfd):
        left = [0]

        def pause():
            os.write(wfd, b"p")
            b = os.read(rfd, 8)
            if len(b) < 8:
                os._exit(137)
            left[0] = int.from_bytes(b, "little")

        def cb(code, line):
            f = code.co_filename
            if not (f.startswith(self.files) or os.path.realpath(f).startswith(self.files)):
                return sys.monitoring.DISABLE
            left[0] -= 1
            if left[0] < 0:
                pause()
                left[0] -= 1

        mon = sys.monitoring
        mon.use_tool_id(TOOL, "sim")
        mon.register_callback(TOOL, mon.events.LINE, cb)
        mon.restart_events()
        mon.set_events(TOOL, mon.events.LINE)
        try:
            fn()
            out = b"o"
        except BaseException as e:
            out = b"e" + repr(e).encode()[:300]
        mon.set_events(TOOL, 0)
        os.write(wfd, out)
        os._exit(0)

    def run(self, choose, between):
        """choose(alive, turn) -> (job, number of lines) or (job, None) to kill it; -> outcome of each job"""
        pids, ends, outs = [], [], [None] * len(self.jobs)
        for fn in self.jobs:
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(w1)
                    os.close(r2)
                    for r, w in ends:
                        os.close(r)
                        os.close(w)
                    self._child(fn, r1, w2)
                finally:
                    os._exit(1)
            os.close(r1)
            os.close(w2)
            pids.append(pid)
            ends.append((r2, w1))

        def report(i):
            b = os.read(ends[i][0], 400)
            if b == b"p":
                return
            while b and b != b"o":
                more = os.read(ends[i][0], 400)
                if not more:
                    break
                b += more
            outs[i] = ("ok", None) if b == b"o" else ("died", None) if not b else ("error", b[1:].decode(errors="replace"))

        try:
            for i in range(len(pids)):
                report(i)
            turn = 0
            while None in outs:
                i, n = choose([j for j, o in enumerate(outs) if o is None], turn)
                if n is None:
                    os.kill(pids[i], signal.SIGKILL)
                    outs[i] = ("died", None)
                else:
                    os.write(ends[i][1], int(n).to_bytes(8, "little"))
                    report(i)
                turn += 1
                between(turn, i, n, outs)
        finally:
            for (r, w), pid in zip(ends, pids):
                os.close(w)
                os.close(r)
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
        return outs


class Clock:
    """simulated wall clock: advances by a virtual amount per reading, and jumps when told to"""

    def __init__(self, now=1.6e9):
        self.now = now
        self.reads = 0

    def __call__(self):
        self.reads += 1
        self.now += 0.001
        return self.now

    def jump(self, dt):
        self.now += dt

    def install(self):
        time.time = self
        return self


class DiskLimit:
    """the disk takes no more than `nbytes` per file: the write fails (EFBIG), or ends the process (crash)"""

    def __init__(self, nbytes, crash=False):
        self.nbytes, self.crash = nbytes, crash

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        self.old_sig = signal.signal(signal.SIGXFSZ, signal.SIG_DFL if self.crash else signal.SIG_IGN)
        if self.crash:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.nbytes, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        signal.signal(signal.SIGXFSZ, self.old_sig)
        return False


class SyscallFault:
    """one of the durable file operations fails with an I/O error (or ends the process), on its k-th call"""

    NAMES = ("replace", "rename", "fsync", "remove", "unlink")

    def __init__(self, name, k=1, crash=False, err=errno.EIO):
        self.name, self.k, self.crash, self.err = name, k, crash, err
        self.n = 0
        self.fired = False
        self.on_fire = None

    def __enter__(self):
        self.orig = getattr(os, self.name)

        def faulty(*a, **kw):
            self.n += 1
            if self.n == self.k:
                self.fired = True
                if self.on_fire:
                    self.on_fire()
                if self.crash:
                    os._exit(137)
                raise OSError(self.err, os.strerror(self.err))
            return self.orig(*a, **kw)

        setattr(os, self.name, faulty)
        return self

    def __exit__(self, *a):
        setattr(os, self.name, self.orig)
        return False


class PowerLoss:
    """the machine goes down: what was written to a file but not synced is lost in part.

    Model of the disk: directory operations (create, rename, remove) are durable at once and in order; the data of a
    file are durable as of its last fsync/fdatasync (or os.sync), or as of the entry into this context if it was
    not touched since. At the power loss every other file keeps a random part of its new data: a prefix, a prefix
    followed by zeros, or nothing. `when`: "rename" (just after the k-th rename), "end" (after the operation),
    "line" (called from a LineFault)."""

    def __init__(self, root, when, rng, k=1):
        self.root, self.when, self.rng, self.k = root, when, rng, k
        self.on_fire = None
        self.n = 0

    def _files(self):
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.isfile(p) and not os.path.islink(p):
                    yield p

    def _sync(self, st, fd=None, path=None):
        if fd is not None:
            for p in self._files():
                q = os.stat(p)
                if (q.st_dev, q.st_ino) == (st.st_dev, st.st_ino):
                    path = p
                    break
        if path is not None:
            with self._open(path, "rb") as f:
                self.durable[st.st_ino] = f.read()

    def __enter__(self):
        self._open = open
        self.durable = {}
        for p in self._files():
            self._sync(os.stat(p), path=p)
        self.orig = {n: getattr(os, n) for n in ("fsync", "fdatasync", "sync", "replace", "rename")}

        def syncing(name):
            def f(fd):
                out = self.orig[name](fd)
                no = fd if isinstance(fd, int) else fd.fileno()
                self._sync(os.fstat(no), fd=no)
                return out
            return f

        def sync():
            for p in self._files():
                self._sync(os.stat(p), path=p)

        def renaming(name):
            def f(*a, **kw):
                out = self.orig[name](*a, **kw)
                self.n += 1
                if self.when == "rename" and self.n == self.k:
                    self.fire()
                return out
            return f

        os.fsync, os.fdatasync, os.sync = syncing("fsync"), syncing("fdatasync"), sync
        os.replace, os.rename = renaming("replace"), renaming("rename")
        return self

    def __exit__(self, *a):
        for n, f in self.orig.items():
            setattr(os, n, f)
        return False

    def lose(self):
        if self.on_fire:
            self.on_fire()
        for p in sorted(self._files()):
            with open(p, "rb") as f:
                cur = f.read()
            if self.durable.get(os.stat(p).st_ino) == cur:
                continue
            n = int(len(cur) * self.rng.choice([0, self.rng.random(), self.rng.random(), .999]))
            with open(p, "wb") as f:
                f.write(cur[:n] + (b"\0" * (len(cur) - n) if self.rng.random() < .5 else b""))

    def fire(self):
        self.lose()
        os._exit(137)


class BadFilter:
    """evaluations of the likelihood that fail.

    The decision is a function of the model's current parameters (through the initial covariance the filter is
    given), hence the same in every process, or of the number of the call (`nth`, `every`)."""

    KINDS = ("raise", "nan", "inf", "posinf", "linalg", "memory", "warn")

    def __init__(self, kind="raise", mod=None, salt=0, nth=None):
        self.kind, self.mod, self.salt, self.nth = kind, mod, salt, nth
        self.calls = 0
        self.fired = 0

    def decide(self, flt):
        self.calls += 1
        if self.nth is not None:
            return self.calls in self.nth
        key = np.array([float("%.6g" % v) for v in np.diag(np.asarray(flt.P, dtype=float))]).tobytes()
        return (zlib.crc32(key) ^ self.salt) % self.mod == 0

    def install(self):
        import econsieve
        bad = self

        def patch(cls):
            orig = cls.batch_filter

            def batch_filter(flt, *a, **kw):
                if bad.decide(flt):
                    bad.fired += 1
                    if bad.kind == "raise":
                        raise ValueError("injected failure")
                    if bad.kind == "linalg":
                        raise np.linalg.LinAlgError("injected failure")
                    if bad.kind == "memory":
                        raise MemoryError("injected failure")
                    if bad.kind == "warn":
                        import warnings
                        warnings.warn("injected overflow", RuntimeWarning)
                    if cls.__name__ != "KalmanFilter" and not kw.get("calc_ll"):
                        return orig(flt, *a, **kw)
                    val = {"inf": -np.inf, "posinf": np.inf}.get(bad.kind, np.nan)
                    if cls.__name__ == "KalmanFilter":
                        means, covs, _ = orig(flt, *a, **kw)
                        return means, covs, val
                    return val
                return orig(flt, *a, **kw)

            cls.batch_filter = batch_filter
            return orig

        self.restore = [(cls, patch(cls)) for cls in (econsieve.KalmanFilter, econsieve.TEnKF)]
        return self

    def remove(self):
        for cls, orig in self.restore:
            cls.batch_filter = orig


class BadSmoother:
    """attempts of the nonlinear smoother that fail; a function of its input and seed, hence the same in every process.

    `always`: every attempt for one in `always` items fails; `some`: one in `some` attempts fails. All attempts are
    written to `path` as lines 'item seed outcome', where an item starts with its filter run."""

    def __init__(self, path, always=None, some=None, salt=0, kind="raise"):
        self.path, self.always, self.some, self.salt, self.kind = path, always, some, salt, kind

    def key(self, X):
        return zlib.crc32(("%.6e" % float(np.sum(np.asarray(X, dtype=float)))).encode()) ^ self.salt

    def install(self):
        import inspect
        from econsieve import TEnKF
        orig = TEnKF.npas
        sig = inspect.signature(orig)
        bad = self
        forig = TEnKF.batch_filter
        bad.item = 0

        def batch_filter(self, *a, **kw):
            bad.item += 1
            return forig(self, *a, **kw)

        def npas(self, *a, **kw):
            args = sig.bind(self, *a, **kw).arguments
            key, seed = bad.key(args["X"]), int(args.get("seed", 0))
            fail = (bad.always and key % bad.always == 0) or (bad.some and zlib.crc32(b"%d/%d" % (key, seed)) % bad.some == 0)
            bad.put(os.getpid() * 10 ** 6 + bad.item, seed, 0 if fail else 1)
            if fail:
                if bad.kind == "linalg":
                    raise np.linalg.LinAlgError("injected failure")
                if bad.kind == "memory":
                    raise MemoryError("injected failure")
                if bad.kind == "index":
                    raise IndexError("injected failure")
                raise ValueError("injected failure")
            return orig(self, *a, **kw)

        self.restore = (TEnKF, orig, forig)
        TEnKF.npas = npas
        TEnKF.batch_filter = batch_filter
        return self

    def put(self, *rec):
        fd = os.open(self.path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.write(fd, (" ".join(map(str, rec)) + "\n").encode())
        os.close(fd)

    def remove(self):
        cls, cls.npas, cls.batch_filter = self.restore

    def attempts(self):
        try:
            with open(self.path) as f:
                return [tuple(int(x) for x in line.split()) for line in f]
        except FileNotFoundError:
            return []
