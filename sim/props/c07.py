"""C07: seeded runs are reproducible."""
import os
import random

import numpy as np

from .. import chain, core, faults, hashserver, ops, simpool, world
from ..core import Violation, describe, same
from ..world import FAMS

PROP = "C07"
WARM = {"kf", "enkf", "npas"}
QUICK, THOROUGH = 90, 2500
RULE = ("one run = one seeded workflow (preparation, prior sampling, posterior sampling, extraction, posterior draws) executed in a quiet serial process and in several "
        "others that differ in hash seed, ambient random states, clock, worker count, schedules and unrelated earlier activity; all numbers have to agree, and differ "
        "for other seeds. Non-trivial: at least one disturbed world was compared on a sampled quantity; distinct by event log.")
COMPONENTS = {
    "real": ["pydsge (all of /repo/pydsge)", "econsieve, emcee, emcwrap, dime_sampler", "interpreters with different hash seeds"],
    "simulated": ["worker pool scheduling", "wall clock", "ambient random number states", "earlier activity of the process"],
    "stub": [],
}
ACTIVITY = ["rng", "rng", "clock", "other_lprob", "other_prior", "other_irfs", "other_read"]
BETWEEN = ["rng", "rng", "clock", "other_lprob", "other_prior", "set_vec", "irfs", "lprob"]


def hashseeds(tier):
    return [3, 1234567] if tier == "quick" else [3, 17, 42, 999, 1234567]


def begin(tier, seed):
    hashserver.start(hashseeds(tier), WARM)


def generate(rng, i, tier):
    setup = world.gen_setup(rng, ncores=0)
    setup["T"], setup["N"] = 8, 12
    setup["seed"] = rng.choice([None, 0, 3, rng.randrange(1000)])
    if not setup["linear"]:
        setup["reduced"] = rng.random() < .5
    fam = setup["fam"]
    nd = len(FAMS[fam]["names"])
    out = []
    kinds = rng.sample(["prior0", "prior", "prior", "mcmc", "mcmc", "extract", "post", "getprior", "post"], rng.choice([3, 4, 5]))
    if "post" in kinds and "mcmc" not in kinds:
        kinds.insert(0, "mcmc")
    kinds.sort(key=lambda k: (k == "post", k == "extract"))
    if "prior0" in kinds:
        kinds.remove("prior0")
        kinds.insert(0, "prior0")
    for k in kinds:
        op = {"op": k}
        if k == "prior0":
            op.update(n=rng.choice([2, 4]), check=rng.random() < .4)
        elif k in ("prior", "getprior"):
            op.update(n=rng.choice([2, 3, 5]), seed=rng.choice([0, 1, rng.randrange(1000)]), check=rng.random() < .4, full=rng.random() < .5)
        elif k == "mcmc":
            op.update(n=rng.choice([2, 3]), seed=rng.choice([None, None, 0, rng.randrange(1000)]), moves=rng.choice(["de", "stretch", "dime", "dime"]), store=rng.random() < .5,
                      tune=rng.choice([None, 1, 2]), temp=rng.choice([False, False, .5]))
            if rng.random() < .6:
                op["p0"] = [world.gen_point(rng, fam, "safe") for _ in range(2 * nd)]
            else:
                op["nwalks"] = 2 * nd
        elif k == "extract":
            op.update(seed=rng.choice([None, 0, rng.randrange(1000)]), pars=[world.gen_point(rng, fam, "safe") for _ in range(2)], nsamples=1 if setup["linear"] else rng.choice([1, 2]))
        else:
            op.update(n=rng.choice([3, 12]), seed=rng.choice([None, 0, rng.randrange(1000)]), full=rng.random() < .5)
        out.append(op)
    for j, op in enumerate(out):
        op["id"] = j
    worlds = []
    for w in range(2 if tier == "quick" else 4):
        wd = {"np": rng.randrange(2 ** 31), "py": rng.randrange(2 ** 31), "clock": rng.choice([0, 1.2e9, 2e9, 4e9]), "hash": rng.choice([0] + hashseeds(tier)), "ncores": rng.choice([0, 1, 2, 3, 4]),
              "sched": {"seed": rng.randrange(10 ** 6), "dist": rng.choice(["uniform", "skew", "one_slow", "one_fast", "reverse"])},
              "before": [ops.gen_noise(rng, setup, ACTIVITY) for _ in range(rng.choice([0, 0, 1, 2]))],
              "between": [[j, gen_between(rng, setup, "post" not in kinds)] for j in range(len(out)) if rng.random() < .4 and out[j]["op"] != "prior0"],
              "twin": rng.random() < .3}
        worlds.append(wd)
    return {"setup": setup, "ops": out, "worlds": worlds}


def gen_between(rng, setup, sample=False):
    if sample and rng.random() < .2:
        # other sampling, which neither finds a mode nor leaves a chain that is asked for later
        op = ops.gen_noise(rng, setup, ["mcmc"])
        op.update(seed=rng.randrange(2000, 3000), temp=.5, backend=None, nsteps=1, p0=[world.gen_point(rng, setup["fam"], "safe") for _ in op["p0"]])
        return op
    op = ops.gen_noise(rng, setup, BETWEEN)
    if op["op"] == "lprob":
        op.update(p=world.gen_point(rng, setup["fam"]), sampler=setup["transform"])
    if op["op"] == "set_vec":
        op["p"] = world.gen_point(rng, setup["fam"], "safe")
        op.pop("kw", None)
    return op


def run_op(mod, op, d, shift=0):
    """-> arrays; with shift, the same operation with another seed"""
    k = op["op"]
    seed = op.get("seed")
    kw = {} if seed is None and not shift else {"seed": (seed or 0) + shift}
    if k == "prior0":
        return {"draws": np.array(mod.prior_sampler(op["n"], check_likelihood=op["check"], verbose=2))}
    if k == "prior":
        return {"draws": np.array(mod.prior_sampler(op["n"], check_likelihood=op["check"], verbose=2, **kw))}
    if k == "getprior":
        return {"draws": np.array(mod.get_par("prior", nsamples=op["n"], full=op["full"], verbose=2, **kw))}
    if k == "mcmc":
        args = {"nwalks": op["nwalks"]} if "nwalks" in op else {"p0": np.array(op["p0"])}
        if shift:
            kw = {"seed": (seed if seed is not None else int(mod.fdict["seed"])) + shift}
        try:
            mod.mcmc(nsteps=op["n"], tune=op["tune"], moves=chain.move_of(op["moves"]), temp=op["temp"], verbose=False,
                     backend=os.path.join(d, "c%d_%d.h5" % (op["id"], shift)) if op["store"] else False, **args, **kw)
        except Exception as e:
            if chain.from_dime(e):
                return {"failed": "sampler package"}
            raise
        out = {"chain": np.array(mod.sampler.get_chain()), "logp": np.array(mod.sampler.get_log_prob())}
        if op["temp"] is False:
            out.update(mode=np.array(mod.fdict["mode_x"], dtype=float), mode_f=float(mod.fdict["mode_f"]))
        return out
    if k == "extract":
        r = mod.extract(sample=[np.array(p) for p in op["pars"]], nsamples=op["nsamples"], verbose=False, **kw)
        return {q: np.array(r[q], dtype=float) for q in ("resid", "init", "pars")}
    # draws from the posterior
    if not hasattr(mod, "sampler"):
        return {}
    return {"draws": np.array(mod.get_par("posterior", nsamples=op["n"], full=op["full"], **kw))}


def session(plan, w, d):
    """the workflow in one process"""
    core.quiet()
    os.makedirs(d, exist_ok=True)
    ctx = chain.DiskCtx(os.path.join(d, "world.log"))
    setup = dict(plan["setup"], ncores=w["ncores"] if w else 0)
    simpool.install(ctx, **(w["sched"] if w else {"seed": 0}))
    st = ops.State(ctx, setup, os.path.join(core.VERIF, "models"))
    if w:
        st.clock.now = w["clock"]
        for op in w["before"]:
            ops.do(st, dict(op, id="b"))
        np.random.seed(w["np"])
        random.seed(w["py"])
    mod = world.make_model(setup, None, do_prep=False)
    if w and w["twin"]:
        # a second model from the same file
        m2 = world.make_model(dict(setup, ncores=0), None)
        m2.lprob(np.array(FAMS[setup["fam"]]["mean"]), verbose=False, use_prior_transform=False)
        np.random.seed(w["np"])
    mod.path = d
    world.prep(mod, setup)
    st.mod = mod
    out = []
    for op in plan["ops"]:
        if w:
            for j, b in w["between"]:
                if j == op["id"]:
                    ops.do(st, dict(b, id="n%d" % j))
                    ctx.count("fault:activity_between")
        simpool.SCHED.begin_op(op["id"])
        other = None
        if not w and op["op"] != "prior0":
            other = core.fork_call(run_op, mod, op, d, 1)
        res = run_op(mod, op, d)
        out.append((op["id"], res, other))
        if op["op"] == "mcmc" and res.get("failed"):
            break
    # the likelihood the preparation is responsible for
    x = FAMS[setup["fam"]]["mean"]
    out.append(("lprob", {"value": core.fork_call(_lprob, mod, x)}, None))
    return out, chain.read_records(os.path.join(d, "world.log"))


def _lprob(mod, x):
    return float(mod.lprob(np.array(x, dtype=float), verbose=False, use_prior_transform=False))


def execute(plan, ctx):
    ref, _ = ctx.fresh(session, plan, None, os.path.join(ctx.dir, "ref"))
    byid = {op["id"]: op for op in plan["ops"]}
    for i, res, other in ref:
        op = byid.get(i)
        ctx.log("ref", i, {k: core.digest(v) if not isinstance(v, str) else v for k, v in res.items()})
        if other and res and "failed" not in other and "failed" not in res:
            key = {"mcmc": "chain", "extract": "resid"}.get(op["op"], "draws")
            if op["op"] == "extract" and plan["setup"]["linear"]:
                continue
            if op["op"] == "post" and (op["n"] < 12 or len(np.unique(ref_chain(ref), axis=0)) < 6):
                continue
            ctx.op = op
            ctx.count("check:other_seed")
            if same(res[key], other[key], rtol=0, atol=0):
                raise Violation("same-numbers", "%s with another seed gives the same numbers" % op["op"])
    for n, w in enumerate(plan["worlds"]):
        d = os.path.join(ctx.dir, "world%d" % n)
        if w["hash"]:
            got, recs = hashserver.call(w["hash"], session, plan, w, d)
            ctx.count("fault:other_hash_seed")
        else:
            got, recs = ctx.fresh(session, plan, w, d)
        ctx.count("fault:other_random_states")
        ctx.count("fault:other_clock")
        for r in recs:
            if r[0] == "count":
                ctx.count(r[1], r[2])
            elif r[0] == "log" and r[1][0] == "schedule":
                ctx.log(*r[1])
        for (i, a, _), (j, b, _) in zip(ref, got):
            ctx.op = byid.get(i, i)
            for k in a:
                ctx.count("check:numbers")
                if k not in b or not same(a[k], b[k]):
                    raise Violation("differs", "%s of %s in another world (hash seed %s, %s workers, before: %s): %s instead of %s" % (
                        k, byid[i]["op"] if i in byid else i, w["hash"], w["ncores"], [o["op"] for o in w["before"]], describe(b.get(k)), describe(a[k])))
        if len(got) != len(ref):
            raise Violation("differs", "%d instead of %d operations finished" % (len(got), len(ref)))
        ctx.count("check:worlds")


def ref_chain(ref):
    for i, res, _ in reversed(ref):
        if "chain" in res:
            return res["chain"].reshape(-1, res["chain"].shape[-1])
    return np.empty((0, 1))


def nontrivial(stats):
    return stats.get("check:worlds", 0) >= 1 and stats.get("check:numbers", 0) >= 2
