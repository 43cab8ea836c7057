"""Posterior sampling with a storage file, in processes that may end at any point."""
import os
import pickle
import shutil

import numpy as np

from . import core, faults, ops, simpool, world
from .core import Violation


class DiskCtx:
    """log and counters of a node process, kept in a file so that they survive its death"""

    def __init__(self, path):
        self.path = path
        self.vtime = 0.0

    mute = False

    def _put(self, rec):
        if self.mute:
            return
        fd = os.open(self.path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        core.write_msg(fd, pickle.dumps(rec))
        os.close(fd)

    def log(self, *what):
        self._put(("log", [core.jsonable(w) for w in what]))

    def count(self, key, n=1):
        self._put(("count", key, n))

    def ack(self, *what):
        self._put(("ack",) + what)


def read_records(path):
    out = []
    try:
        with open(path, "rb") as f:
            fd = f.fileno()
            while True:
                try:
                    out.append(pickle.loads(core.read_msg(fd)))
                except EOFError:
                    return out
    except FileNotFoundError:
        return out


def read_store(path):
    """content of a storage file -> dict, or None if there is none"""
    import h5py
    if not os.path.exists(path):
        return None
    with h5py.File(path, "r") as f:
        if "mcmc" not in f:
            return {"n": 0, "chain": np.empty((0, 0, 0)), "logp": np.empty((0, 0))}
        g = f["mcmc"]
        n = int(g.attrs["iteration"])
        return {"n": n, "chain": g["chain"][:n], "logp": g["log_prob"][:n]}


def safe_read(path):
    try:
        return ("ok", read_store(path))
    except Exception as e:
        return ("damaged", repr(e))


def move_of(name):
    import emcee
    return {"de": lambda: emcee.moves.DEMove(), "stretch": lambda: emcee.moves.StretchMove(), "snooker": lambda: emcee.moves.DESnookerMove(),
            "dime": lambda: None}[name]()


STATELESS = ("de", "stretch")


class NthEval:
    """something happens at the n-th likelihood evaluation of this process"""

    def __init__(self, n, how, ctx):
        import econsieve
        self.n, self.how, self.ctx = n, how, ctx
        self.pid = os.getpid()
        self.saved = []
        for cls in (econsieve.KalmanFilter, econsieve.TEnKF):
            self.saved.append((cls, cls.batch_filter))
            cls.batch_filter = self._wrap(cls.batch_filter)

    def _wrap(self, orig):
        def batch_filter(flt, *a, **kw):
            if os.getpid() == self.pid and self.n is not None:
                self.n -= 1
                if self.n <= 0:
                    self.n = None
                    if self.how == "kill":
                        self.ctx.count("fault:killed_in_evaluation")
                        os._exit(137)
                    self.ctx.count("fault:interrupt_in_evaluation")
                    raise KeyboardInterrupt
            return orig(flt, *a, **kw)
        return batch_filter

    def remove(self):
        for cls, orig in self.saved:
            cls.batch_filter = orig


def from_dime(e):
    tb = e.__traceback__
    while tb is not None:
        if os.sep + "dime_sampler" + os.sep in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


class ReportError(Exception):
    pass


def store_path(plan, d):
    if plan.get("store"):
        return os.path.join(d, plan["store"])
    return os.path.join(d, plan["setup"]["name"] + (plan.get("suffix") or "_sampler.h5"))


def call_mcmc(mod, plan, part, d, extra=None):
    kw = dict(nsteps=part["n"], moves=move_of(plan["moves"]), temp=plan.get("temp", False), verbose=False, tune=part.get("tune", 2))
    if plan.get("store") and not part.get("unnamed"):
        kw["backend"] = store_path(plan, d)
    if plan.get("suffix"):
        kw["suffix"] = plan["suffix"]
    kw["seed"] = part.get("seed", plan.get("seed"))
    if part["how"] == "resume":
        kw["resume"] = True
        if part.get("also") in ("p0", "both"):
            # of no use, as there is a chain already
            kw["p0"] = np.array(part["p0"]) * .97
        if part.get("also") in ("append", "both"):
            kw["append"] = True
    else:
        kw["p0"] = np.array(part["p0"])
        kw["append"] = part["how"] == "append"
    if part.get("maint"):
        kw["maintenance_interval"] = part["maint"]
    if part.get("verbose"):
        kw["verbose"] = part["verbose"]
    kw.update(extra or {})
    return mod.mcmc(**kw)


def boot(plan, part, d):
    """a model in a new process: read from the model file, or loaded from the metadata"""
    from pydsge import DSGE
    setup = dict(plan["setup"], ncores=part["ncores"])
    meta = os.path.join(d, "session_meta.npz")
    if part.get("boot") == "load" and os.path.exists(meta):
        mod = DSGE.load(meta, verbose=False)
        mod.load_estim(load_R=True, ncores=part["ncores"], verbose=False)
    else:
        mod = world.make_model(setup, d)
    return mod


def with_part_fault(ctx, part, fn, d):
    """-> outcome of fn under the fault of this part (may not return at all)"""
    f = part.get("fault")
    sched = simpool.SCHED
    sched.begin_op(part["id"])
    undo = []
    lf = None
    extra = {}
    if f:
        if f["at"] == "eval":
            if part["ncores"] == 0:
                w = NthEval(f["k"], f["how"], ctx)
                undo.append(w.remove)
            else:
                sched.wait_fault = (f["k"], f["how"])
        elif f["at"] == "report":
            cnt = [f["k"]]

            def report(x):
                cnt[0] -= 1
                if cnt[0] == 0:
                    ctx.count("fault:report_failed")
                    raise ReportError("report failed")
            extra = {"report": report, "update_freq": 1, "verbose": 2}
        elif f["at"] == "line":
            bak = d + ".bak"
            shutil.copytree(d, bak)
            ctx.mute = True
            n = ops.line_of(lambda: fn({}), f["site"], f["occ"])
            ctx.mute = False
            shutil.rmtree(d)
            os.rename(bak, d)
            sched.begin_op(part["id"])
            if n is not None:
                lf = faults.LineFault(n, KeyboardInterrupt, crash=f["how"] == "kill")
                lf.on_fire = lambda: ctx.count("fault:killed_at_line" if f["how"] == "kill" else "fault:interrupt_at_line")
    try:
        if lf is not None:
            try:
                with lf:
                    fn(extra)
            finally:
                if lf.fired:
                    ctx.log("line", lf.fired)
        else:
            fn(extra)
        return ("ok", None)
    except (KeyboardInterrupt, ReportError) as e:
        return ("stopped", type(e).__name__)
    except Exception as e:
        if from_dime(e):
            # a limitation of the sampler package: no proposal accepted in the first step
            ctx.count("fault:sampler_package_failed")
            return ("stopped", "dime")
        return ("error", repr(e))
    finally:
        sched.wait_fault = None
        for u in undo:
            u()


def node(plan, parts, d, logfile, snapdir):
    """one process of the deployment: executes parts one after the other"""
    core.quiet(os.path.join(d, "out.txt"))
    import emcee
    ctx = DiskCtx(logfile)
    simpool.install(ctx, seed="%s/%s" % (plan["sched"]["seed"], parts[0]["id"]), dist=plan["sched"]["dist"])
    orig = emcee.backends.HDFBackend.save_step
    cur = [None]

    def save_step(be, state, accepted):
        r = orig(be, state, accepted)
        ctx.ack(cur[0], np.array(state.coords, dtype=float), np.array(state.log_prob, dtype=float), os.path.basename(be.filename))
        return r

    emcee.backends.HDFBackend.save_step = save_step
    path = store_path(plan, d)
    mod = None
    named = False           # the model knows the storage file from earlier calls
    for part in parts:
        cur[0] = part["id"]
        if mod is None:
            mod = boot(plan, part, d)
            if plan.get("meta"):
                mod.save(os.path.join(d, "session_meta.npz"), verbose=False)
        elif part["ncores"] != part.get("prev_ncores"):
            if part["ncores"]:
                mod.create_pool(part["ncores"])
            else:
                mod.pool = None
        if part.get("touch"):
            # something else happens in between
            mod.set_par(np.array(part["touch"]))
            np.random.rand(3)
        how = part["how"]
        if how in ("resume", "append"):
            kind, st = safe_read(path)
            if kind == "ok" and (st is None or st["n"] == 0):
                how = "new"       # nothing to go on with
        eff = dict(part, how=how, unnamed=bool(part.get("implied") and named and how in ("resume", "append")))
        ctx._put(("start", part["id"], how))
        if how in ("side", "read"):
            named = False
            ctx.count("op:%s_%s" % (how, part["what"]))
            try:
                out = ("side", beside(mod, plan, part, d, path, stored_steps(path)))
            except Exception as e:
                if from_dime(e):
                    out = ("side", None)
                else:
                    out = ("error", repr(e))
            ctx._put(("end", part["id"], out))
            if os.path.exists(path):
                shutil.copy(path, os.path.join(snapdir, "%d.h5" % part["id"]))
            if out[0] == "error":
                return
            continue
        if how == "bad":
            kw = {"backend": path} if plan.get("store") else {"suffix": plan["suffix"]} if plan.get("suffix") else {}
            if part.get("crowd") and stored_steps(path):
                # other walkers than those of the chain
                kw.update(append=True, p0=np.array(part["p0"] + part["p0"][:2]))
                ctx.count("op:append_other_walkers")
            try:
                mod.mcmc(nsteps=2, verbose=False, moves=move_of(plan["moves"]), **kw)
                out = ("accepted", None)
            except Exception as e:
                out = ("refused", type(e).__name__)
            ctx._put(("end", part["id"], out))
            if os.path.exists(path):
                shutil.copy(path, os.path.join(snapdir, "%d.h5" % part["id"]))
            continue
        if eff["unnamed"]:
            ctx.count("op:storage_implied")
        before = file_stamp(path)
        out = with_part_fault(ctx, part, lambda extra: call_mcmc(mod, plan, eff, d, extra), d)
        named = named or bool(plan.get("store")) and file_stamp(path) != before
        ctx._put(("vtime", ctx.vtime))
        ctx.vtime = 0.0
        ctx._put(("end", part["id"], out))
        if os.path.exists(path):
            shutil.copy(path, os.path.join(snapdir, "%d.h5" % part["id"]))
        if out[0] == "error":
            return
    return


def file_stamp(path):
    try:
        st = os.stat(path)
    except FileNotFoundError:
        return None
    return st.st_mtime_ns, st.st_size, st.st_ino


def stored_steps(path):
    kind, st = core.fork_call(safe_read, path)
    return st["n"] if kind == "ok" and st is not None else 0


def beside(mod, plan, part, d, path, stored):
    """work that has nothing to do with the storage file of the run, or only reads it"""
    w = part["what"]
    p0 = np.array(part["p0"])
    if w == "memory":
        mod.mcmc(p0, nsteps=2, backend=False, moves=move_of(plan["moves"]), verbose=False, tune=1)
    elif w == "elsewhere":
        kw = {"backend": os.path.join(d, "elsewhere.h5")} if plan.get("store") else {"suffix": "_elsewhere.h5"}
        mod.mcmc(p0, nsteps=2, moves=move_of(plan["moves"]), verbose=False, tune=1, **kw)
    elif w == "model":
        fam = {"m1": "m2", "m2": "m3", "m3": "m1"}[plan["setup"]["fam"]]
        m = world.make_model(dict(plan["setup"], fam=fam, ncores=0), d)
        q = np.array(world.FAMS[fam]["mean"]) * (1 + .01 * np.random.RandomState(part["id"]).randn(2 * len(world.FAMS[fam]["mean"]), len(world.FAMS[fam]["mean"])))
        m.mcmc(q, nsteps=1, moves=move_of("stretch"), verbose=False, tune=1)
    elif w == "save":
        mod.save(os.path.join(d, "beside_meta.npz"), verbose=False)
        mod.save_rdict({"a": p0}, path="beside", verbose=False)
    elif w == "prep":
        world.prep(mod, dict(plan["setup"], ncores=part["ncores"]))
    elif stored:
        kw = {"backend_file": path}
        ch, lp = np.array(mod.get_chain(**kw)), np.array(mod.get_log_prob(**kw))
        flat = np.array(mod.get_chain(flat=True, **kw))
        if hasattr(mod, "sampler") or not (plan.get("store") or plan.get("suffix")):
            mod.info(verbose=False)
        mod.tune = 1
        if hasattr(mod, "sampler") and w == "read_more":
            # of whatever was sampled last
            mod.get_par("post_mean")
            mod.get_par("posterior", nsamples=2)
            mod.mcmc_summary(out=lambda x: None)
            mod.posterior2csv(path=os.path.join(d, "post.csv"))
        return ch, lp, flat
    return None


def ref_chain(plan, part, d, store=None):
    """chain of an undisturbed serial process; continuing a given storage file if there is one"""
    core.quiet()
    work = os.path.join(d, "ref%d" % os.getpid())
    shutil.copytree(os.path.join(d, "w"), work)
    try:
        path = store_path(plan, work)
        if os.path.exists(path):
            os.remove(path)
        if store is not None:
            shutil.copy(store, path)
        p = {k: v for k, v in dict(part, ncores=0).items() if k not in ("also", "maint", "verbose")}
        mod = world.make_model(dict(plan["setup"], ncores=0), work)
        try:
            call_mcmc(mod, plan, p, work)
        except Exception as e:
            if not from_dime(e):
                raise
        return read_store(path)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def read_back(plan, d):
    """what a new process sees through the model"""
    core.quiet()
    mod = world.make_model(dict(plan["setup"], ncores=0), d)
    kw = {"backend_file": store_path(plan, d)} if plan.get("store") or plan.get("suffix") else {}
    return np.array(mod.get_chain(**kw)), np.array(mod.get_log_prob(**kw))


def gen_fault(rng, n, nw):
    at = rng.choices(["eval", "line", "report"], [5, 4, 1])[0]
    if at == "eval":
        return {"at": at, "how": rng.choice(["kill", "kill", "interrupt"]), "k": rng.randrange(1, nw * (n + 1) + 1)}
    if at == "line":
        return {"at": at, "how": rng.choice(["kill", "interrupt"]), "site": round(rng.random(), 4), "occ": round(rng.random(), 4)}
    return {"at": at, "how": "error", "k": rng.randrange(1, 3)}


NAMES = {}


def model_name(fam):
    if fam not in NAMES:
        with open(os.path.join(core.VERIF, "models", fam + ".yaml")) as f:
            for line in f:
                if line.strip().startswith("name:"):
                    NAMES[fam] = line.split(":", 1)[1].strip().strip("'\"")
                    break
    return NAMES[fam]


def gen_manner(rng, part):
    """arguments that must make no difference"""
    if rng.random() < .4:
        part["also"] = rng.choice(["p0", "p0", "append", "both"])
    if rng.random() < .5:
        # the storage file is named by an earlier call only
        part["implied"] = True
    if rng.random() < .2:
        part["maint"] = rng.choice([1, 2])
    if rng.random() < .2:
        part["verbose"] = rng.choice([1, 2])


def gen_base(rng, moves=("de", "stretch", "dime")):
    setup = world.gen_setup(rng, ncores=0)
    setup["T"] = 8
    setup["N"] = 12
    setup["name"] = model_name(setup["fam"])
    fam = setup["fam"]
    nd = len(world.FAMS[fam]["names"])
    nw = 2 * nd + rng.choice([0, 0, 2])
    p0 = [world.gen_point(rng, fam, "safe") for _ in range(nw)]
    plan = {"setup": setup, "moves": rng.choice(moves), "seed": rng.choice([None, rng.randrange(100)]), "temp": rng.choice([False, False, False, .5]),
            "store": rng.choice([None, None, None, "chain.h5", "chain_x", "chain.h5"]), "suffix": None, "meta": rng.random() < .4,
            "sched": {"seed": rng.randrange(10 ** 6), "dist": rng.choice(["uniform", "skew", "reverse", "one_slow"])}}
    if plan["store"] is None and rng.random() < .2:
        plan["suffix"] = "_other.h5"
    return plan, p0, nw


def drive(plan, ctx):
    """execute all parts in as many processes as needed -> list of what happened in each"""
    d = world.model_dir(ctx)
    snap = os.path.join(ctx.dir, "snap")
    os.makedirs(snap)
    path = store_path(plan, d)
    todo = list(plan["ops"])
    before = None
    hist = []
    nproc = 0
    while todo:
        sess = [todo[0]]
        for p in todo[1:]:
            if p.get("newproc"):
                break
            sess.append(p)
        for a, b in zip(sess, sess[1:]):
            b["prev_ncores"] = a["ncores"]
        logfile = os.path.join(ctx.dir, "node%d.log" % nproc)
        nproc += 1
        died = False
        ctx.op = sess[0]
        try:
            ctx.fresh(node, plan, sess, d, logfile, snap, may_die=True)
        except core.Died as e:
            died = True
            if e.status not in (137 << 8, 137):
                raise core.HarnessError("node ended with status %s" % e.status)
        recs = read_records(logfile)
        bak = d + ".bak"
        if os.path.isdir(bak) and died:
            shutil.rmtree(bak)
        ctx.count("processes")
        done = 0
        for p in sess:
            start = [r for r in recs if r[0] == "start" and r[1] == p["id"]]
            if not start:
                break
            done += 1
            end = [r for r in recs if r[0] == "end" and r[1] == p["id"]]
            acks = [(r[2], r[3]) for r in recs if r[0] == "ack" and r[1] == p["id"]]
            out = end[0][2] if end else ("died", None)
            if end:
                sp = os.path.join(snap, "%d.h5" % p["id"])
                kind, after = safe_read(sp)
            else:
                kind, after = safe_read(path)
                if os.path.exists(path):
                    shutil.copy(path, os.path.join(snap, "%d.h5" % p["id"]))
            hist.append({"part": p, "how": start[0][2], "out": out, "acks": acks, "before": before, "after": after if kind == "ok" else None,
                         "damaged": after if kind != "ok" else None,
                         "before_file": os.path.join(snap, "%d.h5" % hist[-1]["part"]["id"]) if hist and hist[-1]["after"] is not None else None})
            before = after if kind == "ok" else None
            ctx.log("part", p["id"], start[0][2], out[0], len(acks), -1 if before is None else before["n"],
                    core.digest(before["chain"][-1]) if before is not None and before["n"] else "-")
            ctx.count("part:" + out[0])
        for r in recs:
            if r[0] == "vtime":
                ctx.vtime += r[1]
            elif r[0] == "count":
                ctx.count(r[1], r[2])
            elif r[0] == "log" and r[1][0] == "schedule":
                ctx.log(*r[1])
        if done == 0:
            raise core.HarnessError("node did nothing")
        todo = todo[done:]
        if hist[-1]["out"][0] == "error" and not hist[-1]["part"].get("fault"):
            break
    return d, hist


def sessions(parts):
    """split into processes: a part marked newproc starts one"""
    out = []
    for p in parts:
        if not out or p.get("newproc"):
            out.append([])
        out[-1].append(p)
    return out
