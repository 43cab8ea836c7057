"""C06: a saved model comes back as the same model in another process."""
import os
import re
import shutil

import numpy as np

from .. import chain, core, faults, ops, simpool, world
from ..core import Violation, same
from ..world import FAMS

PROP = "C06"
WARM = {"kf", "enkf"}
QUICK, THOROUGH = 145, 4000
RULE = ("one run = a process works with a model (with failures and interrupts), saves metadata and results, and dies; the model files are changed or removed; several "
        "new processes load, prepare, use, resume and save again. Every loaded model is compared with the one that was saved. Non-trivial: at least one load was "
        "compared with its posterior values; distinct by event log.")
COMPONENTS = {
    "real": ["pydsge save/load/load_estim/save_rdict/load_rdict", "cloudpickle, numpy, h5py, emcee", "file system of the sandbox (scratch directory)"],
    "simulated": ["processes (forks of a pristine one), their death", "worker pool scheduling", "clock"],
    "stub": [],
}

NOISE = ["set_vec", "set_full", "set_name", "irfs", "lprob", "run_filter", "prior_sampler", "get_cov", "other_lprob", "rng", "clock"]
SPELL = {"def": [(None, "")], "def_s": [(None, "_s")], "rel": [("res_a", ""), ("res_a.npz", ""), ("abs:res_a", ""), ("abs:res_a.npz", "")],
         "rel_s": [("res_b", "_x"), ("res_b.npz", "_x"), ("abs:res_b", "_x"), ("abs:res_b.npz", "_x"), ("res_b_x", ""), ("res_b_x.npz", "")],
         "dot": [("res.v1", ""), ("res.v1.npz", ""), ("abs:res.v1", ""), ("abs:res.v1.npz", "")],
         "dot_s": [("res_c", "_v1.2"), ("res_c.npz", "_v1.2"), ("res_c_v1.2", ""), ("abs:res_c_v1.2.npz", "")],
         "ext_s": [("res_e", "_z.npz"), ("res_e.npz", "_z"), ("res_e_z", ""), ("res_e_z.npz", "")]}


def generate(rng, i, tier):
    setup = world.gen_setup(rng, ncores=rng.choice([0, 0, 2]))
    setup["T"], setup["N"] = rng.choice([8, 12]), 12
    setup["R"] = rng.choice([None, .1, .2])
    fam = setup["fam"]
    plan = {"setup": setup, "prepared": rng.random() < .85, "sched": {"seed": rng.randrange(10 ** 6)},
            "points": [world.gen_point(rng, fam, k) for k in ("safe", "ok", "wide")], "irf": ops.gen_shocks(rng, fam),
            "store": rng.choice([None, None, "chain.h5"]), "name": rng.choice([None, None, "renamed model", "model v1.2"]), "description": rng.choice([None, "a baseline, v2", "Gr\u00f6\u00dfe: 1", ""]),
            "dup": rng.random() < .3, "direct": rng.random() < .35}
    if not plan["prepared"]:
        plan["data"] = rng.random() < .6
    else:
        plan["data"] = True
    out = []
    if plan["prepared"]:
        for _ in range(rng.randrange(0, 4)):
            k = rng.choice(NOISE + ["mcmc", "mcmc", "mcmc", "R", "rdict", "save"])
            op = {"op": k} if k in ("mcmc", "R", "rdict", "save") else ops.gen_noise(rng, setup, [k])
            if k == "mcmc":
                if setup["linear"] is False and tier == "quick" and rng.random() < .5:
                    continue
                nd = len(FAMS[fam]["names"])
                op.update(p0=[world.gen_point(rng, fam, "safe") for _ in range(2 * nd)], n=rng.choice([2, 3]), tune=rng.choice([None, 1, 2]),
                          moves=rng.choice(["de", "stretch"]))
            elif k == "R":
                op["val"] = rng.choice([.05, .3])
            elif k == "save":
                op["name"] = rng.choice(["meta_a", None])
            elif k == "lprob":
                op.update(p=world.gen_point(rng, fam), sampler=setup["transform"])
            if k in NOISE and rng.random() < .4:
                op["fault"] = ops.gen_fault(rng)
            out.append(op)
        if rng.random() < .5:
            # saved once, then changed, and saved again
            out.append({"op": "save", "name": rng.choice(["meta_a", None])})
            out += gen_changes(rng, setup)
    if rng.random() < .5:
        out.append({"op": "rdict", "key": rng.choice(sorted(SPELL)), "seed": rng.randrange(1000)})
    names = ["meta_a", "meta_b.npz", None, "sub/meta_c", "meta.v1"]
    cur = rng.choice(names)
    out.append({"op": "save", "name": cur})
    if rng.random() < .3:
        out.append({"op": "after", "p": world.gen_point(rng, fam), "kill": rng.random() < .5})
    ncyc = rng.randrange(1, 4 if tier == "quick" else 7)
    for c in range(ncyc):
        if rng.random() < .5:
            out.append({"op": "files", "how": rng.choice(["edit", "remove", "funcs", "edit"]), "val": round(rng.uniform(1.1, 1.4), 3)})
        op = {"op": "load", "name": cur, "force": rng.random() < .4, "before": rng.choice([None, None, "read", "load_twice"]), "prep": rng.choice(["plain", "plain", "load_R", "R_ncores"]),
              "resume": rng.random() < .4, "chain_first": rng.random() < .4, "ncores": rng.choice([0, 2])}
        if rng.random() < .6:
            op["save"] = rng.choice(names)
            cur = op["save"]
            if plan["prepared"] and rng.random() < .5:
                op["changes"] = gen_changes(rng, setup)
        out.append(op)
    for j, op in enumerate(out):
        op["id"] = j
        if op["op"] == "rdict":
            op.setdefault("key", rng.choice(sorted(SPELL)))
            op.setdefault("seed", rng.randrange(1000))
    plan["ops"] = out
    return plan


def gen_changes(rng, setup):
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(["R", "R", "R", "prep", "prep", "data", "describe", "point"])
        op = {"op": k}
        if k == "R":
            op["val"] = round(rng.uniform(.03, .5), 3)
        elif k == "prep":
            op["over"] = {"seed": rng.randrange(5, 9)}
            if rng.random() < .5:
                op["over"]["N"] = rng.choice([14, 16])
            if rng.random() < .3:
                op["over"]["linear"] = not setup["linear"]
            if rng.random() < .5:
                op["over"]["R"] = round(rng.uniform(.03, .5), 3)
        elif k == "data":
            op["over"] = {"t0": rng.randrange(4, 8), "T": rng.choice([8, 10])}
        elif k == "describe":
            op["text"] = "version %d" % rng.randrange(100)
        else:
            op["p"] = world.gen_point(rng, setup["fam"], "safe")
        out.append(op)
    return out


def change(mod, cur, op):
    """a change by the user; the setup after it is put into `cur`"""
    k = op["op"]
    if k == "R":
        mod.filter.R = mod.create_obs_cov(op["val"])
    elif k == "prep":
        cur.update(op["over"])
        world.prep(mod, cur)
    elif k == "data":
        cur.update(op["over"])
        world.load_data(mod, cur)
    elif k == "describe":
        mod.description = op["text"]
        mod.fdict["description"] = op["text"]
    elif k == "point":
        mod.set_par(np.array(op["p"]))


def meta_path(d, name, model):
    if name is None:
        return os.path.join(d, model + "_meta.npz")
    return os.path.join(d, name if name.endswith(".npz") else name + ".npz")


def rdict_of(seed):
    r = np.random.RandomState(seed)
    return {"a": r.randn(3, 4), "n": int(seed), "text": "result %d, with ümlaut" % seed, "d": {"x": r.randn(2), "y": None}, "none": None, "flag": bool(seed % 2),
            "ints": r.randint(0, 9, 5), "names": ["u", "vv"], "empty": np.empty((0, 3))}


def spell(d, key, i=0):
    p, s = SPELL[key][i % len(SPELL[key])]
    return (os.path.join(d, p[4:]) if p and p.startswith("abs:") else p), s


def plain(x):
    return x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x


def facts(mod):
    """what characterises the model, without preparing it"""
    par = list(np.array(mod.par_fix, dtype=float))
    pp = mod.pcompile(par)
    f = {
        "variables": [str(v) for v in mod.variables], "shocks": [str(s) for s in mod.shocks], "observables": [str(o) for o in mod.observables],
        "parameters": [str(p) for p in mod.parameters], "other parameters": [str(p) for p in mod.parafunc[0]], "calibration": par, "all parameters": np.array(pp, dtype=float),
        "priors": {str(k): [str(x) for x in v] for k, v in mod.prior.items()}, "prior order": [str(k) for k in mod.prior], "prior positions": list(mod.prior_arg),
        "name": str(mod.name), "equations": [str(e) for e in mod["equations"]],
    }
    for n in ("AA", "BB", "CC", "bb", "PSI", "ZZ0", "ZZ1", "QQ"):
        f["matrix " + n] = np.array(getattr(mod, n)(pp), dtype=float)
    f["data"] = mod.data if getattr(mod, "data", None) is not None else None
    for k in ("mode_x", "mode_f", "filter_n", "linear", "seed", "use_prior_transform", "filter_R"):
        f["saved " + k] = plain(mod.fdict.get(k))
    f["description"] = str(plain(mod.fdict.get("description")))
    for n in ("best", "mode", "calib", "prior_mean"):
        try:
            f["set " + n] = np.array(mod.get_par(n, full=n not in ("best", "mode")), dtype=float)
        except Exception as e:
            f["set " + n] = type(e).__name__ if n != "best" or hasattr(mod, "ndim") else None
    if f["saved mode_x"] is None:
        f["set best"] = None     # needs the preparation
    f["tune"] = plain(mod.get_tune) if hasattr(mod, "tune") or "tune" in mod.fdict else None
    return f


def behaviour(mod, plan, cur, sample=True):
    """what a prepared model does"""
    out = {"noise": np.array(mod.filter.R, dtype=float), "filter": str(mod.filter.name), "N": int(mod.filter.N) if hasattr(mod.filter, "N") and not cur["linear"] else None,
           "transform": mod.bptrans is not None, "ndim": int(mod.ndim), "init": np.array(mod.get_par("init", full=False), dtype=float),
           "best": np.array(mod.get_par("best", full=False), dtype=float)}
    for j, p in enumerate(plan["points"]):
        x = world.to_sampler(cur["fam"], p) if cur["transform"] else p
        out["log-posterior %d" % j] = core.fork_call(_lprob, mod, x)
    out.update(core.fork_call(simulated, mod, plan))
    if plan["direct"] and sample:
        out.update(core.fork_call(direct, mod, plan))
    return out


DIRECT = ("prior draws", "sampled", "sampled log-posterior")


def direct(mod, plan):
    """draws from the prior and the posterior; a loaded model prepares itself for it"""
    try:
        p0 = np.array(mod.prior_sampler(2 * len(mod.prior), seed=4, check_likelihood=True, verbose=False), dtype=float)
        mod.mcmc(p0.copy(), nsteps=1, backend=False, seed=6, moves=chain.move_of("de"), tune=1, verbose=False)
    except Exception as e:
        return {"sampled": type(e).__name__}
    return {"prior draws": p0, "sampled": np.array(mod.get_chain(), dtype=float), "sampled log-posterior": np.array(mod.get_log_prob(), dtype=float)}


def _lprob(mod, x):
    return float(mod.lprob(np.array(x, dtype=float), verbose=False))


def simulated(mod, plan):
    """impulse responses of the model at a given point"""
    mod.set_par("calib", l_max=3, k_max=16)
    mod.set_par(np.array(plan["points"][0]), l_max=3, k_max=16)
    X, (L, K), flag = mod.irfs([tuple(s) for s in plan["irf"]], T=6, verbose=False)
    return {"impulse responses": X.values if hasattr(X, "values") else X, "flags": flag}


def check_facts(want, have, what):
    for k in want:
        if not same(want[k], have.get(k)):
            raise Violation("differs", "%s: %s was %s and is %s" % (what, k, core.describe(want[k]), core.describe(have.get(k))))


def builder(plan, todo, d, logfile):
    core.quiet(os.path.join(d, "out.txt"))
    ctx = chain.DiskCtx(logfile)
    simpool.install(ctx, seed=plan["sched"]["seed"])
    st = ops.State(ctx, plan["setup"], d)
    mod = world.make_model(plan["setup"], d, do_prep=False) if plan["data"] else _read(plan, d)
    if plan.get("name"):
        mod.name = plan["name"]
    if plan.get("description"):
        mod.description = plan["description"]
        mod.fdict["description"] = plan["description"]
    if plan["prepared"]:
        world.prep(mod, plan["setup"])
    st.mod = mod
    cur = dict(plan["setup"])
    for op in todo:
        ctx._put(("start", op["id"]))
        k = op["op"]
        if k == "save":
            if op["name"] and "/" in op["name"]:
                os.makedirs(os.path.join(d, os.path.dirname(op["name"])), exist_ok=True)
            mod.save(*([os.path.join(d, op["name"])] if op["name"] else []), verbose=False)
            ctx._put(("saved", meta_path(d, op["name"], mod.name), core.fork_call(facts, mod), core.fork_call(behaviour, mod, plan, cur) if plan["prepared"] else core.fork_call(simulated, mod, plan), dict(cur)))
        elif k == "rdict":
            p, s = spell(d, op["key"])
            mod.save_rdict(rdict_of(op["seed"]), path=p, suffix=s, verbose=False)
            ctx._put(("rdict", op["key"], op["seed"]))
        elif k == "mcmc":
            mod.mcmc(np.array(op["p0"]), nsteps=op["n"], tune=op["tune"], moves=chain.move_of(op["moves"]), seed=op.get("seed"), verbose=False,
                     **({"backend": os.path.join(d, plan["store"])} if plan["store"] else {}))
            ctx._put(("mcmc", op["id"]))
        elif k in ("R", "prep", "data", "describe", "point"):
            change(mod, cur, op)
        elif k == "after":
            if op["kill"]:
                ctx.count("fault:killed_after_save")
                os._exit(137)
            mod.set_par(np.array(op["p"]))
        else:
            ops.do(st, op)
        ctx._put(("end", op["id"]))


def _read(plan, d):
    from pydsge import DSGE
    return DSGE.read(os.path.join(d, plan["setup"]["fam"] + ".yaml"))


def loader(plan, op, path, d, logfile, has_chain, store, cur):
    core.quiet(os.path.join(d, "out.txt"))
    from pydsge import DSGE
    ctx = chain.DiskCtx(logfile)
    simpool.install(ctx, seed="%s/%s" % (plan["sched"]["seed"], op["id"]))
    faults.Clock(1.7e9).install()
    if op["before"] == "read":
        # this process has already worked with the files as they are now
        for fam in (plan["setup"]["fam"], "m2"):
            y = os.path.join(d, fam + ".yaml")
            if os.path.exists(y):
                m = DSGE.read(y)
                m.set_par("calib")
    elif op["before"] == "load_twice":
        m = DSGE.load(path, force_parse=not op["force"], verbose=False)
        m.set_par(np.array(plan["points"][1]))
        m.name = "something else"
    mod = DSGE.load(path, force_parse=op["force"], verbose=False)
    ctx._put(("facts", core.fork_call(facts, mod)))
    if plan["prepared"] and plan["direct"]:
        ctx._put(("direct", core.fork_call(direct, mod, plan)))
    if has_chain and op["chain_first"]:
        ctx._put(("chain", np.array(mod.get_chain()), np.array(mod.get_log_prob())))
    if plan["prepared"]:
        kw = {"verbose": False, "ncores": op["ncores"]}
        if op["prep"] != "plain":
            kw["load_R"] = True
        mod.load_estim(**kw)
        ctx._put(("behaviour", core.fork_call(behaviour, mod, plan, cur, False)))
    else:
        ctx._put(("behaviour", core.fork_call(simulated, mod, plan)))
        if plan["data"]:
            ctx._put(("late", core.fork_call(late, mod, plan)))
    if has_chain and not op["chain_first"]:
        ctx._put(("chain", np.array(mod.get_chain()), np.array(mod.get_log_prob())))
    if has_chain:
        ctx._put(("posterior", core.fork_call(posterior, mod, d)))
    if "save" in op:
        if op["save"] and "/" in op["save"]:
            os.makedirs(os.path.join(d, os.path.dirname(op["save"])), exist_ok=True)
        cur = dict(cur)
        for ch in op.get("changes", []):
            change(mod, cur, ch)
        mod.save(*([os.path.join(d, op["save"])] if op["save"] else []), verbose=False)
        new = (core.fork_call(facts, mod), core.fork_call(behaviour, mod, plan, cur), cur) if op.get("changes") else None
        ctx._put(("saved", meta_path(os.path.dirname(path) if op["save"] is None else d, op["save"], mod.name), new))
    if has_chain and op["resume"]:
        n0 = chain.read_store(store)
        mod.mcmc(nsteps=1, resume=True, moves=chain.move_of("de"), verbose=False, tune=1)
        ctx._put(("resumed", n0, chain.read_store(store)))


def posterior(mod, d):
    """what the model reports about its chain"""
    import pandas as pd
    f = os.path.join(d, "posterior%d.csv" % os.getpid())
    mod.posterior2csv(path=f)
    csv = pd.read_csv(f, index_col=0)
    os.remove(f)
    out = {"tune": int(mod.get_tune), "mean": np.array(mod.get_par("post_mean", full=False), dtype=float),
           "draws": np.array(mod.get_par("posterior", nsamples=4, seed=3, full=False), dtype=float),
           "mode": np.array(mod.get_par("mode", full=False), dtype=float) if "mode_x" in mod.fdict else None,
           "csv": csv.values.T, "csv names": [str(x) for x in csv.index], "info": mod.info(verbose=False)}
    return out


def check_posterior(ctx, what, got, stored, tune, plan, facts_):
    chain_ = stored["chain"]
    if plan["setup"]["transform"]:
        chain_ = world.from_sampler(plan["setup"]["fam"], chain_)
    ctx.count("check:posterior_reports")
    if tune is None:
        return
    if got["tune"] != tune:
        raise Violation("posterior", "%s: the number of retained steps was %s and is %s" % (what, tune, got["tune"]))
    keep = chain_[-tune:].reshape(-1, chain_.shape[-1])
    if not same(got["mean"], keep.mean(axis=0), 1e-9, 1e-12):
        raise Violation("posterior", "%s: the posterior mean is %s, that of the stored draws %s" % (what, core.describe(got["mean"]), core.describe(keep.mean(axis=0))))
    for x in got["draws"]:
        if not any(same(x, y, 1e-9, 1e-12) for y in keep):
            raise Violation("posterior", "%s: a draw from the posterior is not one of the retained draws" % what)
    if not same(got["csv"], keep, 1e-6, 1e-9) or got["csv names"] != facts_["prior order"]:
        raise Violation("posterior", "%s: the exported posterior is not the retained part of the chain" % what)
    for line in ("Title: %s" % facts_["name"], "Description: %s" % facts_["description"], "Last %s of %s samples" % (tune, len(chain_))):
        if line not in got["info"]:
            raise Violation("posterior", "%s: info() does not contain %r: %r" % (what, line, got["info"]))


def late(mod, plan):
    world.prep(mod, dict(plan["setup"], ncores=0))
    return behaviour(mod, plan, plan["setup"])


def rdict_back(plan, d, key, i):
    core.quiet()
    mod = _read(plan, os.path.join(core.VERIF, "models"))
    mod.path = d
    if plan.get("name"):
        mod.name = plan["name"]
    p, s = spell(d, key, i)
    return mod.load_rdict(p, suffix=s)


def fresh_late(plan, d):
    core.quiet()
    mod = world.make_model(plan["setup"], d, do_prep=False)
    if plan.get("name"):
        mod.name = plan["name"]
    return late(mod, plan)


def execute(plan, ctx):
    d = world.model_dir(ctx, fams=(plan["setup"]["fam"], "m2"))
    fam = plan["setup"]["fam"]
    truth, rdicts = {}, {}
    todo = list(plan["ops"])
    build = []
    while todo and todo[0]["op"] not in ("load", "files"):
        build.append(todo.pop(0))
    logfile = os.path.join(ctx.dir, "builder.log")
    died = False
    try:
        ctx.op = "building and saving the model"
        ctx.fresh(builder, plan, build, d, logfile, may_die=True)
    except core.Died as e:
        died = True
        if e.status not in (137 << 8, 137):
            raise core.HarnessError("builder ended with status %s" % e.status)
    recs = chain.read_records(logfile)
    has_chain = False
    for r in recs:
        if r[0] == "count":
            ctx.count(r[1], r[2])
        elif r[0] == "saved":
            truth[r[1]] = (r[2], r[3], has_chain, r[4])
            ctx.log("saved", os.path.basename(r[1]), core.digest(r[2]["calibration"]))
        elif r[0] == "rdict":
            rdicts[r[1]] = r[2]
        elif r[0] == "mcmc":
            has_chain = True
            ctx.count("op:mcmc")
    late_ref = None
    if not plan["prepared"] and plan["data"]:
        late_ref = ctx.ref(fresh_late, plan, os.path.join(core.VERIF, "models"))
    name = plan.get("name") or chain.model_name(fam)
    store = os.path.join(d, plan["store"]) if plan["store"] else os.path.join(d, name + "_sampler.h5")
    for op in todo:
        ctx.op = {k: v for k, v in op.items() if k != "p0"}
        if op["op"] == "files":
            change_files(d, fam, op)
            ctx.count("fault:model_files_" + op["how"])
            ctx.log("files", op["how"])
            continue
        if op["op"] != "load":
            continue
        path = meta_path(d, op["name"], name)
        if path not in truth:
            alt = [p for p in truth if os.path.basename(p) == os.path.basename(path)]
            if not alt:
                continue
            path = alt[0]
        tf, tb, with_chain, cur = truth[path]
        # the default storage file is looked up next to the metadata
        here = with_chain and (plan["store"] is not None or os.path.dirname(path) == d)
        logfile = os.path.join(ctx.dir, "load%d.log" % op["id"])
        ctx.count("op:load")
        stored = chain.read_store(store) if here else None
        ctx.fresh(loader, plan, op, path, d, logfile, here, store, cur)
        what = "loading %s%s" % (os.path.basename(path), " with forced parsing" if op["force"] else "")
        for r in chain.read_records(logfile):
            if r[0] == "facts":
                ctx.count("check:models")
                check_facts(tf, r[1], what)
            elif r[0] == "behaviour":
                ctx.count("check:behaviour")
                check_facts({k: v for k, v in tb.items() if k not in DIRECT}, r[1], what + " and preparing it" * plan["prepared"])
            elif r[0] == "direct":
                ctx.count("check:sampled_without_preparing")
                check_facts({k: v for k, v in tb.items() if k in DIRECT}, r[1], what + " and sampling")
            elif r[0] == "late":
                ctx.count("check:behaviour")
                check_facts(late_ref, r[1], what + " and preparing it as a fresh one")
            elif r[0] == "chain":
                ctx.count("check:chains")
                want = stored["chain"]
                if plan["setup"]["transform"]:
                    want = world.from_sampler(fam, want)
                if not same(want, r[1]) or not same(stored["logp"], r[2]):
                    raise Violation("chain", "%s: the chain it reads is not the stored one (%s instead of %s)" % (what, r[1].shape, want.shape))
            elif r[0] == "posterior":
                check_posterior(ctx, what, r[1], stored, tf["tune"], plan, tf)
            elif r[0] == "saved":
                truth[r[1]] = (tf, tb, with_chain, cur) if r[2] is None else (r[2][0], r[2][1], with_chain, r[2][2])
                if r[2] is not None:
                    ctx.count("op:changed_and_saved")
            elif r[0] == "resumed":
                ctx.count("check:resumed")
                a, b = r[1], r[2]
                if b is None or b["n"] != a["n"] + 1 or not same(b["chain"][:a["n"]], a["chain"]):
                    raise Violation("resume", "%s and resuming the sampling by one step: %s instead of %d steps" % (what, b and b["n"], a["n"] + 1))
            elif r[0] == "count":
                ctx.count(r[1], r[2])
        ctx.log("loaded", op["id"], os.path.basename(path), op["force"], op["before"])
    for key, seed in sorted(rdicts.items()):
        for i in range(len(SPELL[key])):
            ctx.op = "results %s, spelled %s" % (key, SPELL[key][i])
            got = ctx.fresh(rdict_back, plan, d, key, i)
            want = rdict_of(seed)
            ctx.count("check:results")
            if sorted(got) != sorted(want):
                raise Violation("results", "entries %s instead of %s" % (sorted(got), sorted(want)))
            for k in want:
                w, g = want[k], plain(got[k])
                if not (same(w, g) if not isinstance(w, list) else list(g) == w):
                    raise Violation("results", "entry %s is %r instead of %r" % (k, g, w))


def change_files(d, fam, op):
    y, f = os.path.join(d, fam + ".yaml"), os.path.join(d, fam + "_funcs.py")
    if op["how"] == "remove":
        for p in (y, f):
            if os.path.exists(p):
                os.remove(p)
    elif op["how"] == "edit":
        if os.path.exists(y):
            s = open(y).read()
            s = re.sub(r"(?m)^(\s+beta\s*:).*$", r"\1 .97", s)
            s = re.sub(r"(?m)^(\s+phi_pi\s*:)\s*[\d.]+\s*$", r"\1 %s" % (1.2 * op["val"]), s)
            open(y, "w").write(s)
    else:
        with open(f, "w") as fh:
            fh.write("def calc_nu(nub):\n    return nub*%s\n" % op["val"])


def nontrivial(stats):
    return stats.get("check:behaviour", 0) >= 1
