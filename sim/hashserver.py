"""An interpreter with another hash seed: executes functions of the harness in forked processes on request.

  server: python -m sim.hashserver SOCKET PART...     (started by `start`, ends with its parent)
"""
import os
import pickle
import signal
import socket
import subprocess
import sys

from . import core

SERVERS = {}


def start(seeds, parts):
    """launch one interpreter per hash seed"""
    procs = []
    for h in seeds:
        path = os.path.join(core.SCRATCH, "hash%d.sock" % h)
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        procs.append((subprocess.Popen([sys.executable, "-m", "sim.hashserver", path] + sorted(parts), cwd=core.VERIF, env=env, stdout=subprocess.PIPE, start_new_session=False), h, path))
    for p, h, path in procs:
        line = b"-"
        while line and line.strip() != b"ready":
            line = p.stdout.readline()
        if not line:
            raise core.HarnessError("interpreter with hash seed %d did not start" % h)
        SERVERS[h] = path


def call(h, fn, *args, timeout=240, **kw):
    s = socket.socket(socket.AF_UNIX)
    s.connect(SERVERS[h])
    fd = s.fileno()
    core.write_msg(fd, pickle.dumps((fn.__module__, fn.__name__, args, kw)))
    s.setblocking(True)
    try:
        kind, val = pickle.loads(core.read_msg(fd, core.REAL_MONO() + timeout))
    finally:
        s.close()
    if kind == "ok":
        return val
    if kind == "violation":
        raise core.Violation(*val)
    raise core.HarnessError(val)


def main():
    core.die_with_parent()
    from . import world
    world.warm(set(sys.argv[2:]), fill=False)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(sys.argv[1])
    srv.listen(64)
    sys.stdout.flush()
    os.write(1, b"\nready\n")
    core.quiet()
    while True:
        con, _ = srv.accept()
        if os.fork() == 0:
            try:
                core.die_with_parent()
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                srv.close()
                fd = con.fileno()
                mod, name, args, kw = pickle.loads(core.read_msg(fd))
                fn = getattr(__import__(mod, fromlist=[name]), name)
                try:
                    res = ("ok", core.fork_call(fn, *args, **kw))
                except core.Violation as v:
                    res = ("violation", (v.kind, v.detail, v.op))
                except BaseException as e:
                    res = ("harness", str(e))
                core.write_msg(fd, pickle.dumps(res))
            finally:
                os._exit(0)
        con.close()


if __name__ == "__main__":
    main()
