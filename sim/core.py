"""Process plumbing of the simulator: forked runs, pristine reference processes, deterministic logs.

Everything that executes code of /repo runs in forked children of one warm parent. The parent itself
never executes an operation under test (it only imports and JIT-compiles), so that every fork starts from
the same pristine state: a fork is a "fresh process" of the simulated deployment.
"""
import ctypes
import hashlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

REAL_TIME = time.time          # the harness' own clock, never seen by the code under test
REAL_MONO = time.monotonic

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")

_libc = ctypes.CDLL(None, use_errno=True)


class HarnessError(Exception):
    """something is wrong with the machinery (never reported as a violation)"""


class Violation(Exception):
    """the property does not hold on this run"""

    def __init__(self, kind, detail, op=None):
        super().__init__("%s: %s" % (kind, detail))
        self.kind, self.detail, self.op = kind, detail, op


class Died(Exception):
    """a simulated process died (crash point reached, or killed)"""

    def __init__(self, status):
        super().__init__("process ended with status %r" % (status,))
        self.status = status


def die_with_parent():
    _libc.prctl(1, signal.SIGKILL)


def _write_all(fd, data):
    data = struct.pack("<Q", len(data)) + data
    view = memoryview(data)
    while view:
        n = os.write(fd, view[:1 << 16])
        view = view[n:]


def _read_exact(fd, n, deadline=None):
    out = bytearray()
    while len(out) < n:
        if deadline is not None:
            left = deadline - REAL_MONO()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                raise TimeoutError
        chunk = os.read(fd, min(1 << 20, n - len(out)))
        if not chunk:
            raise EOFError
        out += chunk
    return bytes(out)


def read_msg(fd, deadline=None):
    (n,) = struct.unpack("<Q", _read_exact(fd, 8, deadline))
    return _read_exact(fd, n, deadline)


write_msg = _write_all


def repo_error(e):
    """whether an exception came up while code of the package was executing"""
    tb = e.__traceback__
    pkg = os.path.realpath(os.path.join(REPO, "pydsge")) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(pkg):
            return True
        tb = tb.tb_next
    return False


def quiet(path=None):
    """send stdout and stderr of this process to a file of the run"""
    fd = os.open(path or os.devnull, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    sys.stdout.flush()
    sys.stderr.flush()
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


def fork_call(fn, *args, timeout=240, may_die=False, **kwargs):
    """run fn(*args) in a forked child, and return its (pickled) result.

    Raises Died if the process ended without a result and may_die is set."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            die_with_parent()
            try:
                res = ("ok", fn(*args, **kwargs))
            except Violation as v:
                res = ("violation", (v.kind, v.detail, v.op))
            except HarnessError as e:
                res = ("harness", str(e))
            except BaseException as e:
                if isinstance(e, Exception) and repo_error(e):
                    res = ("violation", ("unexpected-error", "%r\n%s" % (e, traceback.format_exc()[-1500:]), None))
                else:
                    res = ("harness", traceback.format_exc())
            try:
                blob = pickle.dumps(res)
            except BaseException:
                blob = pickle.dumps(("harness", "result not picklable: " + traceback.format_exc()))
            write_msg(w, blob)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        blob = read_msg(r, REAL_MONO() + timeout)
    except TimeoutError:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise HarnessError("simulated process did not finish within %ss" % timeout)
    except EOFError:
        _, status = os.waitpid(pid, 0)
        if may_die:
            raise Died(status)
        raise HarnessError("simulated process died, status %s" % status)
    finally:
        os.close(r)
    os.waitpid(pid, 0)
    kind, val = pickle.loads(blob)
    if kind == "ok":
        return val
    if kind == "violation":
        raise Violation(*val)
    raise HarnessError(val)


class Zygote:
    """a process frozen in the state it had when the run began; forks a fresh process per request"""

    def __init__(self):
        self.req_r, self.req_w = os.pipe()
        self.rep_r, self.rep_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            die_with_parent()
            os.close(self.req_w)
            os.close(self.rep_r)
            while True:
                try:
                    blob = read_msg(self.req_r)
                except EOFError:
                    os._exit(0)
                mod, name, args, kwargs, may_die, timeout = pickle.loads(blob)
                try:
                    fn = getattr(__import__(mod, fromlist=[name]), name)
                    res = ("ok", fork_call(fn, *args, may_die=may_die, timeout=timeout, **kwargs))
                except Died as d:
                    res = ("died", d.status)
                except Violation as v:
                    res = ("violation", (v.kind, v.detail, v.op))
                except BaseException as e:
                    res = ("harness", str(e))
                write_msg(self.rep_w, pickle.dumps(res))
        os.close(self.req_r)
        os.close(self.rep_w)

    def call(self, fn, *args, may_die=False, timeout=240, **kwargs):
        write_msg(self.req_w, pickle.dumps((fn.__module__, fn.__name__, args, kwargs, may_die, timeout)))
        kind, val = pickle.loads(read_msg(self.rep_r, REAL_MONO() + timeout + 30))
        if kind == "ok":
            return val
        if kind == "died":
            raise Died(val)
        if kind == "violation":
            raise Violation(*val)
        raise HarnessError(val)


class Ctx:
    """what one simulated run carries: its scratch directory, its zygote, its log and its counters"""

    def __init__(self, rundir):
        self.dir = rundir
        os.makedirs(rundir, exist_ok=True)
        self.zygote = Zygote()
        self.events = []
        self.stats = {}
        self.vtime = 0.0
        self.op = None
        self._cache = {}

    def log(self, *what):
        self.events.append([jsonable(w) for w in what])

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def fresh(self, fn, *args, **kwargs):
        """call fn in a fresh process"""
        return self.zygote.call(fn, *args, **kwargs)

    def ref(self, fn, *args):
        """reference value from a fresh process, remembered for this run"""
        key = pickle.dumps((fn.__name__, args))
        if key not in self._cache:
            self._cache[key] = self.zygote.call(fn, *args)
            self.count("reference_processes")
        return self._cache[key]


def jsonable(x):
    import numpy as np
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, (float, np.floating)):
        return float("%.6g" % x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return digest(x)
    return repr(x)


def digest(a):
    """short name of an array, insensitive to the last bits"""
    import numpy as np
    a = np.asarray(a)
    if a.dtype.kind in "fc":
        with np.errstate(all="ignore"):
            a = np.array([float("%.5g" % v) + 0.0 for v in a.ravel()]).reshape(a.shape)
    return "%s:%s" % ("x".join(map(str, a.shape)) or "0d", hashlib.sha1(repr(a.tolist()).encode()).hexdigest()[:10])


def same(a, b, rtol=1e-6, atol=1e-8):
    """equality of results up to floating point noise; NaNs and infinities must be at the same places"""
    import numpy as np
    import pandas as pd
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (pd.DataFrame, pd.Series)):
        if not isinstance(b, (pd.DataFrame, pd.Series)):
            return False
        return list(map(str, a.index)) == list(map(str, b.index)) and \
            list(map(str, getattr(a, "columns", []))) == list(map(str, getattr(b, "columns", []))) and \
            same(a.values, b.values, rtol, atol)
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(map(str, a)) == sorted(map(str, b)) and all(same(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (list, tuple)) and (len(a) == 0 or not isinstance(a[0], (int, float, np.number))):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, (str, bytes)):
        return a == b
    try:
        a, b = np.asarray(a), np.asarray(b)
    except Exception:
        return a == b
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fciub" and b.dtype.kind in "fciub":
        return bool(np.allclose(a.astype(float), b.astype(float), rtol=rtol, atol=atol, equal_nan=True))
    return a.tolist() == b.tolist()


def describe(a):
    """short description of a value for violation messages"""
    import numpy as np
    try:
        arr = np.asarray(a, dtype=float)
        if arr.size <= 6:
            return repr(arr.round(8).tolist())
        return "array%s[%s.. %s]" % (arr.shape, ", ".join("%.6g" % v for v in arr.ravel()[:4]), digest(arr))
    except Exception:
        s = repr(a)
        return s if len(s) < 200 else s[:200] + "..."


def rng_of(*key):
    return random.Random("/".join(map(str, key)))


def log_hash(events):
    return hashlib.sha1(json.dumps(events, sort_keys=True).encode()).hexdigest()[:16]
