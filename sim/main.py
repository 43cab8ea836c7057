"""Seeded search: generate plans, run each in its own simulated deployment, minimise and report violations."""
import argparse
import importlib
import json
import os
import pickle
import shutil
import signal
import sys
import time
import traceback

from . import core
from .core import REAL_MONO, HarnessError, Violation, rng_of


def run_child(prop, plan, rundir):
    """one simulated run, in this (forked) process"""
    from . import simpool
    ctx = core.Ctx(rundir)
    res = {"status": "ok"}
    try:
        prop.execute(plan, ctx)
    except Violation as v:
        res = {"status": "violation", "kind": v.kind, "detail": str(v.detail)[:2000], "op": core.jsonable(v.op if v.op is not None else ctx.op)}
    except HarnessError as e:
        res = {"status": "harness", "detail": str(e)[-3000:]}
    except BaseException as e:
        if isinstance(e, Exception) and core.repo_error(e):
            # the package failed in an operation that has to succeed
            res = {"status": "violation", "kind": "unexpected-error", "detail": "%r\n%s" % (e, traceback.format_exc()[-1500:]), "op": core.jsonable(ctx.op)}
        else:
            res = {"status": "harness", "detail": traceback.format_exc()[-3000:]}
    if simpool.SCHED is not None:
        simpool.SCHED.killall()
    res.update(stats=ctx.stats, hash=core.log_hash(ctx.events), vtime=ctx.vtime, events=len(ctx.events), log=ctx.events[:400])
    return res


class Runner:
    """runs plans in parallel in forked children"""

    def __init__(self, prop, jobs, timeout):
        self.prop, self.jobs, self.timeout = prop, jobs, timeout
        self.n = 0

    def start(self, plan):
        self.n += 1
        rundir = os.path.join(core.SCRATCH, "run%06d" % self.n)
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.close(r)
                os.setpgid(0, 0)
                core.die_with_parent()
                os.makedirs(rundir, exist_ok=True)
                core.quiet(os.path.join(rundir, "out.txt"))
                os.chdir(rundir)
                # a workload may leave the process by a simulated crash only in its own children
                res = run_child(self.prop, plan, rundir)
                core.write_msg(w, pickle.dumps(res))
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        return dict(pid=pid, fd=r, dir=rundir, plan=plan, t0=REAL_MONO())

    def finish(self, h):
        """collect a handle that is ready or overdue"""
        try:
            left = max(0.0, h["t0"] + self.timeout - REAL_MONO())
            res = pickle.loads(core.read_msg(h["fd"], REAL_MONO() + left))
        except TimeoutError:
            res = {"status": "timeout", "detail": "run did not finish within %ss" % self.timeout}
        except EOFError:
            res = {"status": "harness", "detail": "run process died"}
            try:
                pid, status = os.waitpid(h["pid"], os.WNOHANG)
                res["detail"] += ", status %s" % (status if pid else "?")
                if pid:
                    h["reaped"] = True
            except OSError:
                pass
        os.close(h["fd"])
        try:
            os.killpg(h["pid"], signal.SIGKILL)
        except OSError:
            try:
                os.kill(h["pid"], signal.SIGKILL)
            except OSError:
                pass
        if not h.get("reaped"):
            os.waitpid(h["pid"], 0)
        try:
            os.killpg(h["pid"], signal.SIGKILL)
        except OSError:
            pass
        if os.environ.get("VERIF_DEBUG") and res["status"] != "ok":
            try:
                res["out"] = open(os.path.join(h["dir"], "out.txt")).read()[-3000:]
            except OSError:
                pass
        shutil.rmtree(h["dir"], ignore_errors=True)
        res.setdefault("stats", {})
        res["wall"] = REAL_MONO() - h["t0"]
        return res

    def one(self, plan):
        return self.finish(self.start(plan))

    def many(self, plans, deadline=None):
        """yield (index, plan, result) as runs finish"""
        import select
        live = {}
        it = enumerate(plans)
        exhausted = False
        try:
            while True:
                while not exhausted and len(live) < self.jobs:
                    if deadline is not None and REAL_MONO() > deadline:
                        exhausted = True
                        break
                    try:
                        i, plan = next(it)
                    except StopIteration:
                        exhausted = True
                        break
                    h = self.start(plan)
                    h["i"] = i
                    live[h["fd"]] = h
                if not live:
                    return
                ready = select.select(list(live), [], [], 1.0)[0]
                now = REAL_MONO()
                for fd in list(live):
                    if fd in ready or now - live[fd]["t0"] > self.timeout:
                        h = live.pop(fd)
                        yield h["i"], h["plan"], self.finish(h)
        finally:
            for h in live.values():
                h["t0"] -= 2 * self.timeout
                self.finish(h)


def _coverage(path):
    """development aid: append each line of the package executed by any process to a file"""
    seen = set()
    mon = sys.monitoring
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    pkg = os.path.realpath(os.path.join(core.REPO, "pydsge")) + os.sep

    def cb(code, line):
        fn = code.co_filename
        if fn.startswith(pkg) and (fn, line) not in seen:
            seen.add((fn, line))
            os.write(fd, ("%s:%d\n" % (os.path.basename(fn), line)).encode())
        return mon.DISABLE

    mon.use_tool_id(3, "cov")
    mon.register_callback(3, mon.events.LINE, cb)
    mon.set_events(3, mon.events.LINE)


def minimise(runner, plan, kind, budget):
    """drop operations and faults while the same violation persists"""
    end = REAL_MONO() + budget
    tries = 0

    def fails(p):
        nonlocal tries
        tries += 1
        r = runner.one(p)
        return r["status"] == "violation" and r["kind"] == kind

    best = plan
    ops = list(plan.get("ops", []))
    size = max(1, len(ops) // 2)
    while ops and size >= 1 and REAL_MONO() < end:
        i = 0
        progress = False
        while i < len(ops) and REAL_MONO() < end:
            cand = ops[:i] + ops[i + size:]
            p = dict(best, ops=cand)
            if fails(p):
                ops, best, progress = cand, p, True
            else:
                i += size
        if size == 1 and not progress:
            break
        size = max(1, size // 2) if size > 1 else (1 if progress else 0)
    # drop single faults
    for i, op in enumerate(list(best.get("ops", []))):
        if REAL_MONO() > end:
            break
        if isinstance(op, dict) and op.get("fault"):
            p = dict(best, ops=[dict(o, fault=None) if j == i else o for j, o in enumerate(best["ops"])])
            if fails(p):
                best = p
    return best, tries


def load_known(pid):
    out = []
    try:
        with open(os.path.join(core.VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: ") and ("property=%s " % pid) in line:
                    body = dict(kv.split("=", 1) for kv in line[len("known: "):].split(" ;; ") if "=" in kv)
                    out.append(body)
    except OSError:
        pass
    return out


def is_known(known, res):
    for k in known:
        if k.get("kind") == res.get("kind") and k.get("match", "") in res.get("detail", ""):
            return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--twice", type=int, help="determinism check: run that many plans twice and compare the logs")
    ap.add_argument("--only", type=int, help="run only plan number N")
    a = ap.parse_args(argv)

    t_start = REAL_MONO()
    prop = importlib.import_module("sim.props.%s" % a.prop.lower())
    pid = prop.PROP
    from . import world
    if os.environ.get("VERIF_COV"):
        _coverage(os.environ["VERIF_COV"])
    import pydsge
    if not os.path.realpath(pydsge.__file__).startswith(os.path.realpath(core.REPO) + os.sep):
        print("harness: pydsge is not imported from %s" % core.REPO, file=sys.stderr)
        return 2
    world.warm(prop.WARM)
    if hasattr(prop, "begin"):
        prop.begin(a.tier, a.seed)
    t_warm = REAL_MONO()
    timeout = getattr(prop, "TIMEOUT", 150)
    runner = Runner(prop, a.jobs, timeout)

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        res = runner.one(rec["plan"])
        print(json.dumps({k: res.get(k) for k in ("status", "kind", "detail", "op", "hash")}, indent=1))
        if res["status"] == "violation":
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        if res["status"] == "timeout" and rec.get("kind") == "no-progress":
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        return 0 if res["status"] == "ok" else 2

    nruns = a.runs or (prop.QUICK if a.tier == "quick" else prop.THOROUGH)
    budget = 420 if a.tier == "quick" else getattr(prop, "BUDGET", 3600)
    plans = [prop.generate(rng_of(a.seed, pid, i), i, a.tier) for i in range(nruns)] if a.only is None \
        else [prop.generate(rng_of(a.seed, pid, a.only), a.only, a.tier)]
    plans = [json.loads(json.dumps(p)) for p in plans]

    if a.twice:
        sel = plans[:a.twice]
        h1 = {i: r for i, _, r in runner.many(sel)}
        runner.jobs = max(2, a.jobs // 2)
        h2 = {i: r for i, _, r in runner.many(list(sel))}
        bad = [i for i in h1 if h1[i].get("hash") != h2[i].get("hash") or h1[i]["status"] != h2[i]["status"]]
        print("determinism: %d plans run twice, %d differ: %s" % (len(sel), len(bad), bad))
        for i in bad[:3]:
            la, lb = h1[i].get("log", []), h2[i].get("log", [])
            for x, y in zip(la, lb):
                if x != y:
                    print("plan", i, "\n  ", x, "\n  ", y)
                    break
            print(h1[i]["status"], h2[i]["status"], h1[i].get("detail"), h2[i].get("detail"))
        return 2 if bad else 0

    deadline = t_start + budget
    done, hashes, stats, kinds = 0, {}, {}, {}
    nontrivial = set()
    viol, harness, timeouts = [], [], []
    vtime = 0.0
    samples = []
    known = load_known(pid)
    known_hit = {}
    for i, plan, res in runner.many(plans, deadline):
        done += 1
        if os.environ.get("VERIF_DEBUG"):
            print(i, res["status"], "%.1fs" % res["wall"], res.get("kind", ""), str(res.get("detail", ""))[:3000], res.get("op"), flush=True)
            if res.get("out") and os.environ["VERIF_DEBUG"] == "2":
                print(res["out"])
        for k, v in res["stats"].items():
            stats[k] = stats.get(k, 0) + v
        vtime += res.get("vtime", 0.0)
        if res["status"] == "ok":
            h = res["hash"]
            hashes[h] = hashes.get(h, 0) + 1
            if prop.nontrivial(res["stats"]):
                nontrivial.add(h)
            if len(samples) < 3 and res.get("log") and prop.nontrivial(res["stats"]):
                samples.append({"plan": plan, "log_head": res["log"][:12], "hash": h})
        elif res["status"] == "violation":
            k = is_known(known, res)
            if k:
                known_hit[json.dumps(k, sort_keys=True)] = res
                continue
            viol.append((i, plan, res))
            if len(viol) >= 3:
                break
        elif res["status"] == "timeout":
            timeouts.append((i, plan, res))
            if len(timeouts) >= 3:
                break
        else:
            harness.append((i, plan, res))
            if len(harness) >= 12:
                break

    rc = 0
    reported = 0
    outdir = os.path.join(core.VERIF, "replays")
    unreproduced = 0
    for i, plan, res in sorted(viol, key=lambda t: (len(t[1].get("ops", [])), t[0])):
        if reported:
            break
        again = None
        for _ in range(3):
            r = runner.one(plan)
            if r["status"] == "violation":
                again = r
                break
        if again is None:
            unreproduced += 1
            continue
        best, tries = minimise(runner, plan, again["kind"], 90 if a.tier == "quick" else 300)
        final = None
        for _ in range(3):
            r = runner.one(best)
            if r["status"] == "violation":
                final = r
                break
        if final is None:
            best, final = plan, again
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, "%s-s%d-r%d.json" % (pid, a.seed, i))
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": a.seed, "run": i, "kind": final["kind"], "detail": final["detail"], "op": final.get("op"),
                       "plan": best, "log": final.get("log", [])[-60:], "minimised_in": tries,
                       "ops_before": len(plan.get("ops", [])), "ops_after": len(best.get("ops", []))}, f, indent=1)
        print("violation of %s in run %d (seed %d): %s: %s [op %s]" % (pid, i, a.seed, final["kind"], final["detail"][:600], final.get("op")))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
        reported += 1
    if not reported and timeouts:
        i, plan, res = timeouts[0]
        r = runner.one(plan)
        if r["status"] == "timeout":
            os.makedirs(outdir, exist_ok=True)
            path = os.path.join(outdir, "%s-s%d-r%d.json" % (pid, a.seed, i))
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": a.seed, "run": i, "kind": "no-progress", "detail": res["detail"], "plan": plan}, f, indent=1)
            print("violation of %s in run %d: no progress, the run does not finish (twice, %ss each)" % (pid, i, timeout))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
            reported += 1
        else:
            harness.append((i, plan, res))
    for k, r in known_hit.items():
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, r["kind"], r["detail"][:300]))
    if harness and not reported:
        for i, plan, res in harness[:3]:
            print("harness error in run %d: %s" % (i, res["detail"]), file=sys.stderr)
        rc = 2
    if (not done or (not hashes and not reported)) and rc == 0:
        print("harness: no run finished", file=sys.stderr)
        rc = 2

    wall = REAL_MONO() - t_start
    search = max(1e-9, REAL_MONO() - t_warm)
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.RULE,
            "samples": samples or [{"plan": plans[0]}],
            "planned_runs": len(plans),
            "runs_per_hour": round(done / search * 3600),
            "simulated_pool_time_units": round(vtime, 2),
            "faults_fired": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
            "operations": {k[3:]: v for k, v in sorted(stats.items()) if k.startswith("op:")},
            "probes": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")},
            "checks_made": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("check:")},
            "other_counters": {k: v for k, v in sorted(stats.items()) if ":" not in k},
            "distinct_event_logs": len(hashes),
            "components": getattr(prop, "COMPONENTS", COMPONENTS),
            "harness_errors": len(harness), "unreproduced": unreproduced,
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []) + ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": reported,
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d runs, %d distinct non-trivial, %d violations, %.0fs (warm-up %.0fs)" % (
        pid, a.tier, a.seed, done, len(nontrivial), reported, wall, t_warm - t_start))
    return rc


COMPONENTS = {
    "real": ["pydsge (all of /repo/pydsge)", "numba-compiled engine", "econsieve filters", "emcee / emcwrap / dime_sampler", "pathos pool front end",
             "dill/cloudpickle serialisation between processes", "numpy npz and HDF5 files on a scratch directory"],
    "simulated": ["multiprocess.Pool below pathos (forked workers, scheduled one at a time in virtual time)", "wall clock read by the package"],
    "stub": [],
}
ASSUMPTIONS = [
    "Linux fork semantics; one BLAS thread; results compared up to a relative tolerance of 1e-6",
    "a simulated process crash keeps everything handed to the operating system; losses of power are simulated for saved files only (C05)",
]

if __name__ == "__main__":
    sys.exit(main())
