"""C01: the posterior value at a point does not depend on what happened before."""
import numpy as np

from .. import core, faults, ops, simpool, world
from ..core import Violation, same

PROP = "C01"
WARM = {"kf", "enkf", "tmat", "npas"}
QUICK, THOROUGH = 200, 4000
RULE = ("one run = one prepared model (family, filter, seed, transform, pool) and a random history of operations, some failed or "
        "interrupted at a random line; every posterior evaluation in it is compared with the first evaluation of a fresh process. "
        "Non-trivial: at least two compared evaluations with another operation or a fault between them; distinct by event log.")

NOISE = ["set_vec", "set_vec", "set_full", "set_name", "set_named", "get", "get_cov", "irfs", "simulate", "t_func", "traj", "k_map", "obs",
         "get_ll", "run_filter", "prior_sampler", "get_prior", "mcmc", "save", "reprep", "pool", "rng", "clock", "warnings",
         "other_lprob", "other_read", "other_irfs", "other_prior", "extract", "nhd", "gfevd", "misc"]
LINEY = {"set_vec", "set_full", "set_name", "set_named", "get_ll", "run_filter", "irfs", "obs", "get", "traj", "reprep", "other_lprob", "get_prior"}


def gen_eval(rng, setup, pool):
    p = rng.choice(pool)
    kw = {}
    if rng.random() < .3:
        kw["temp"] = rng.choice([.5, .01, 0])
    sampler = setup["transform"]
    if rng.random() < .15:
        sampler = not sampler
        kw["use_prior_transform"] = sampler
    if sampler and min(p) <= 0:
        p = pool[0]
    op = {"op": "lprob", "p": p, "sampler": sampler, "kw": kw}
    if rng.random() < .2:
        op["verbose"] = rng.choice([1, 2, 3, 4])
    return op


def generate(rng, i, tier):
    setup = world.gen_setup(rng)
    if not setup["linear"] and rng.random() < .3:
        setup["reduced"] = False
    fam = setup["fam"]
    pool = [world.gen_point(rng, fam, k) for k in ("ok", "ok", "wide", "indet", "outside")]
    # neighbours of a point, closer than what one would call different
    for eps in (3e-3, 2e-4, 2e-5):
        pool.append([x * (1 + eps * rng.choice([1, -1])) for x in pool[0]])
    noise = rng.sample(NOISE, k=min(len(NOISE), rng.randrange(4, 14)))      # swarm: a subset per run
    pf = rng.choice([0, .1, .3])
    out = []
    for j in range(rng.randrange(6, 16 if tier == "quick" else 30)):
        if rng.random() < .55:
            op = gen_eval(rng, setup, pool)
            if rng.random() < pf:
                op["fault"] = ops.gen_fault(rng)
        else:
            op = ops.gen_noise(rng, setup, noise)
            if rng.random() < pf and op["op"] in LINEY:
                op["fault"] = ops.gen_fault(rng, ("interrupt", "memory"))
            elif rng.random() < pf and op["op"] in ("irfs", "simulate", "prior_sampler"):
                op["fault"] = ops.gen_fault(rng, ("pool",))
        op["id"] = j
        out.append(op)
    for p in rng.sample(pool, 2):
        e = gen_eval(rng, setup, [pool[0], p])
        e["id"] = len(out)
        out.append(e)
    return {"setup": setup, "sched": {"seed": rng.randrange(10 ** 6), "dist": rng.choice(["uniform", "skew", "one_slow", "reverse"])}, "ops": out}


def execute(plan, ctx):
    setup = plan["setup"]
    simpool.install(ctx, **plan["sched"])
    st = ops.State(ctx, setup, world.model_dir(ctx))
    evals = []
    for op in plan["ops"]:
        if op["op"] == "lprob":
            x = world.to_sampler(setup["fam"], op["p"]) if op["sampler"] else op["p"]
            key = (x, op.get("kw", {}))
            if key not in evals:
                evals.append(key)
    vals = ctx.ref(world.ref_lprobs, setup, evals) if evals else []
    st.mod = world.make_model(setup, st.dir)
    since = True
    for op in plan["ops"]:
        ctx.op = op
        if op["op"] != "lprob":
            val, err = ops.do(st, op)
            ctx.log(op["id"], op["op"], type(err).__name__ if err is not None else "ok")
            since = True
            continue
        x = world.to_sampler(setup["fam"], op["p"]) if op["sampler"] else op["p"]
        want = vals[evals.index((x, op.get("kw", {})))]
        before = world.rstate()
        val, err = ops.do(st, op)
        f = op.get("fault")
        ctx.log(op["id"], "lprob", type(err).__name__ if err is not None else val)
        if err is not None:
            if f and f["kind"] != "badfilter":
                since = True
                continue
            raise Violation("error", "evaluation raised %r, a fresh model gives %r" % (err, want))
        if world.rstate() != before:
            raise Violation("random-state", "the evaluation changed the caller's random numbers")
        if f:
            # a failed evaluation has to count as impossible, or not to have been hit at all
            since = True
            if f["kind"] == "interrupt" and st.fired:
                raise Violation("interrupt", "an interrupt of the evaluation (in %s) was ignored: it returned %r" % (st.fired, val))
            if not (same(val, want) or val == -np.inf):
                raise Violation("faulty-value", "evaluation with fault %s returned %r instead of -inf or %r" % (f, val, want))
            continue
        ctx.count("check:value")
        if since:
            ctx.count("check:value_after_history")
        since = False
        if not same(val, want):
            raise Violation("value", "posterior at %s is %.10g, but %.10g in a fresh process" % (op["p"], val, want))


def nontrivial(stats):
    return stats.get("check:value_after_history", 0) >= 2
