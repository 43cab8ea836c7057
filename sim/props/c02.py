"""C02: parallel batches give the results of serial work, item by item and in order."""
import os

import numpy as np

from .. import core, ops, simpool, world
from ..core import Violation, describe, same

PROP = "C02"
WARM = {"kf", "enkf", "npas"}
QUICK, THOROUGH = 190, 4000
RULE = ("one run = a session of batch operations on one or two models sharing worker pools, every assignment, duration and completion order chosen "
        "by the simulator, pools closed, re-created, resized and abandoned in between; every item is compared with a fresh serial process. "
        "Non-trivial: at least one compared parallel batch of two or more items; distinct by event log (which contains the schedules).")

BATCH = ["irfs", "irfs", "simulate", "extract", "prior_sampler", "get_prior", "mcmc"]
SESSION = ["set_vec", "set_full", "lprob", "pool", "close", "rng", "clock", "run_filter", "abandon"]


def generate(rng, i, tier):
    fam = rng.choice(["m1", "m2", "m3"])
    setups = []
    for k in range(rng.choice([1, 1, 2])):
        f = fam if k == 0 or rng.random() < .5 else rng.choice(["m1", "m2", "m3"])
        s = world.gen_setup(rng, fam=f, ncores=rng.choice([None, 1, 2, 3, 4, 5, 0]))
        if not s["linear"]:
            s["reduced"] = rng.random() < .3
        s["T"] = 8
        setups.append(s)
    if len(setups) == 2 and rng.random() < .5:
        setups[1]["ncores"] = setups[0]["ncores"]
    pf = rng.choice([0, 0, .2])
    batch = rng.sample(BATCH, rng.randrange(3, len(BATCH) + 1))
    out = []
    for j in range(rng.randrange(5, 11 if tier == "quick" else 22)):
        m = rng.randrange(len(setups))
        s = setups[m]
        f = s["fam"]
        k = rng.choice(batch) if rng.random() < .65 else rng.choice(SESSION)
        if k == "lprob":
            op = {"op": "lprob", "p": world.gen_point(rng, f, "safe"), "sampler": s["transform"], "kw": {}}
        elif k in ("close", "abandon"):
            op = {"op": k, "how": rng.choice(["close", "terminate", "clear"])}
        else:
            op = ops.gen_noise(rng, s, [k])
        if k == "set_vec":
            op["p"] = world.gen_point(rng, f, "safe")
            op.pop("kw", None)
        if k == "set_full":
            op["p"] = world.gen_point(rng, f, "safe")
            op.pop("kw", None)
        if k == "irfs":
            op["pars"] = [world.gen_point(rng, f, rng.choice(["ok", "safe", "wide"])) for _ in range(rng.choice([2, 3, 5, 7]))]
            op["batch"] = True
            op["full"] = rng.random() < .25
        if k == "simulate":
            op["pars"] = [world.gen_point(rng, f, "safe") for _ in range(rng.choice([2, 3, 5]))]
            op["full"] = rng.random() < .25
        if k in ("irfs", "simulate") and rng.random() < (.8 if op.get("mask") else .3):
            op["twice"] = rng.choice(["serial", "serial", "parallel"])
        if k == "extract":
            for q in ("other", "single", "init_cov", "lk"):
                op.pop(q, None)
            op["pars"] = [world.gen_point(rng, f, "safe") for _ in range(rng.choice([2, 3]) if s["linear"] else 2)]
            op["nsamples"] = 1 if s["linear"] else rng.choice([1, 2])
        if k in ("prior_sampler", "get_prior"):
            op["n"] = rng.choice([2, 3, 5])
        if k == "mcmc":
            op["backend"] = None
            op["seed"] = rng.randrange(50)
            op["temp"] = rng.choice([False, False, .5])
        if op["op"] in BATCH and rng.random() < pf:
            op["fault"] = {"kind": "pool", "at": rng.randrange(3)}
        op["m"], op["id"] = m, j
        op["base"] = {"p": world.gen_point(rng, f, "safe"), "lk": rng.choice([[2, 8], [3, 16]]),
                      "other": {n: round(rng.uniform(*FR(f, n)), 4) for n in sorted(world.FAMS[f]["other"]) if rng.random() < .3}}
        out.append(op)
    return {"setups": setups, "sched": {"seed": rng.randrange(10 ** 6), "dist": rng.choice(["uniform", "skew", "one_slow", "one_fast", "reverse"])}, "ops": out}


def FR(f, n):
    return world.FAMS[f]["other"][n]


def full_of(mod, par, other):
    full = np.array(mod.par_fix, dtype=float)
    names = [str(x) for x in mod.parameters]
    for k, v in other.items():
        full[names.index(k)] = v
    full[mod.prior_arg] = par
    return full


def run_op(mod, setup, op, items=None):
    """the batch operation for all or for some of its items -> list of per-item results"""
    k = op["op"]
    idx = list(range(len(op["pars"]))) if items is None and "pars" in op else items
    if k in ("irfs", "simulate"):
        pars = [np.array(op["pars"][i]) for i in idx]
        if op.get("full"):
            pars = [full_of(mod, p, {}) for p in pars]
    if k == "irfs":
        n = len(idx)
        if items is not None:
            # one item, without batch
            X, LK, flag = mod.irfs(ops.irf_shocks(op), pars=pars[0], **ops.irf_kwargs(mod, op))
            return [(np.array(X), LK[0], LK[1], flag)]
        shocks, kw = ops.irf_shocks(op), ops.irf_kwargs(mod, op)
        X, LK, flag = again(mod, op, lambda: mod.irfs(shocks, pars=pars, **kw))
        shapes_ok(k, [(len(X), n), (len(LK), 2 * n), (np.size(flag), n)])
        return [(X[j], LK[j], LK[n + j], np.ravel(flag)[j]) for j in range(n)]
    if k == "simulate":
        eps, init = ops.sim_args(mod, op)
        if items is not None:
            return [sim_alone(mod, op, pars[0], eps[idx[0]], init[idx[0]])]
        eps, init = eps[idx], init[idx]
        X, (L, K), flags = again(mod, op, lambda: ops.sim_call(mod, op, pars, eps, init))
        n = len(idx)
        shapes_ok(k, [(len(X), n), (len(L), n), (len(K), n), (np.size(flags), n)])
        return [(X[j], L[j], K[j], np.ravel(flags)[j]) for j in range(n)]
    if k == "extract":
        pars = [np.array(op["pars"][i]) for i in idx]
        r = mod.extract(sample=pars if items is None else pars[0], seed=op["seed"], nsamples=op["nsamples"], verbose=False)
        n = len(idx) * op["nsamples"]
        shapes_ok(k, [(len(r[q]), n) for q in ("pars", "init", "resid", "flags")])
        return [tuple(np.array(r[q][j], dtype=float) for q in ("pars", "init", "resid", "flags")) for j in range(n)]
    if k == "prior_sampler":
        r = mod.prior_sampler(op["n"], seed=op["seed"], check_likelihood=op.get("check", False), verbose=2)
        shapes_ok(k, [(len(r), op["n"])])
        return list(r)
    if k == "get_prior":
        r = mod.get_par("prior", nsamples=op["n"], seed=op["seed"], full=False, verbose=2)
        shapes_ok(k, [(len(r), op["n"])])
        return list(r)
    if k == "mcmc":
        p0 = np.array(op["p0"])
        mv = None
        if op.get("moves") == "de":
            import emcee
            mv = emcee.moves.DEMove()
        mod.mcmc(p0, nsteps=op["nsteps"], tune=1, moves=mv, backend=False, seed=op["seed"], temp=op["temp"], verbose=False)
        return [np.array(mod.get_chain()), np.array(mod.get_log_prob())]
    raise core.HarnessError(k)


def again(mod, op, call):
    """the same objects once or twice: inputs belong to the caller"""
    how = op.get("twice")
    if how == "parallel":
        call()
    elif how == "serial":
        debug, mod.debug = mod.debug, True
        try:
            call()
        finally:
            mod.debug = debug
    return call()


def sim_alone(mod, op, par, eps, x):
    """one simulation, period by period"""
    mod.set_par(par, **(op.get("lk") or {}))
    if op.get("mask"):
        eps = np.array(eps)
        i, v, t0 = op["mask"]
        i %= eps.shape[1]
        eps[t0:, i] = eps[t0:, i] + v if op.get("add") else eps[t0:, i] * v
    X, L, K, flag = [x], [], [], 0
    for e in eps:
        x, (l, k), f = mod.t_func(x, e, return_k=True, linear=op.get("linear", False))
        flag |= f
        X.append(x)
        L.append(l)
        K.append(k)
    return np.array(X), np.array(L), np.array(K), flag


def shapes_ok(what, pairs):
    for have, want in pairs:
        if have != want:
            raise Violation("count", "%s returned %s results for %s items" % (what, have, want))


def ref_items(setup, base, op):
    """every item alone, each in its own fresh serial process"""
    core.quiet()
    mod = world.make_model(world.serial(setup))
    if op["op"] in ("irfs", "simulate", "extract"):
        out = []
        for i in range(len(op["pars"])):
            out += core.fork_call(_ref_one, mod, setup, base, op, [i])
        return out
    return core.fork_call(_ref_one, mod, setup, base, op, None)


def _ref_one(mod, setup, base, op, items):
    if base is not None:
        mod.set_par(np.array(base["full"]), l_max=base["lk"][0], k_max=base["lk"][1])
    try:
        return run_op(mod, setup, op, items)
    except Violation:
        raise
    except Exception as e:
        return ["error:" + type(e).__name__] * (len(items) * op.get("nsamples", 1) if items else 1)


def execute(plan, ctx):
    simpool.install(ctx, **plan["sched"])
    d = world.model_dir(ctx)
    sts, bases = [], []
    for s in plan["setups"]:
        st = ops.State(ctx, s, d)
        st.mod = world.make_model(s, d)
        sts.append(st)
        bases.append(None)
    leftover = []
    for op in plan["ops"]:
        ctx.op = op
        m, k = op["m"], op["op"]
        st, mod, s = sts[m], sts[m].mod, plan["setups"][m]
        if k in ("irfs", "simulate", "extract", "run_filter") and bases[m] is None:
            b = op["base"]
            full = full_of(mod, b["p"], b["other"])
            try:
                mod.set_par(full.copy(), l_max=b["lk"][0], k_max=b["lk"][1])
            except Exception as e:
                raise Violation("error", "setting the parameters raised %r" % (e,))
            bases[m] = {"full": full.tolist(), "lk": b["lk"]}
        if k in BATCH:
            ctx.count("op:" + k)
            val, err = ops.with_fault(st, op, lambda: run_op(mod, s, op))
            if isinstance(err, KeyboardInterrupt) and op.get("fault"):
                ctx.log(op["id"], k, "interrupted")
                bases[m] = None if k in ("mcmc", "prior_sampler", "get_prior", "extract") else bases[m]
                continue
            ref_op = {q: v for q, v in op.items() if q not in ("fault", "base", "id", "m")}
            base = bases[m] if k in ("irfs", "simulate", "extract", "prior_sampler") else None
            want = ctx.ref(ref_items, s, base, ref_op)
            errs = [w for w in want if isinstance(w, str)]
            if err is not None:
                ctx.log(op["id"], k, "error", type(err).__name__)
                if isinstance(err, Violation):
                    raise err
                if not errs:
                    raise Violation("error", "%s with %s workers raised %r, every item succeeds serially" % (k, s["ncores"], err))
                bases[m] = None
                continue
            if errs:
                raise Violation("error", "%s succeeded, but an item alone fails with %s" % (k, errs[0]))
            ctx.log(op["id"], k, "ok", [core.jsonable(x) for x in val])
            ctx.count("check:batches")
            if s["ncores"] != 0 and len(val) > 1:
                ctx.count("check:parallel_batches")
            for j, (g, w) in enumerate(zip(val, want)):
                ctx.count("check:items")
                if not same(list(g) if isinstance(g, tuple) else g, list(w) if isinstance(w, tuple) else w):
                    raise Violation("item", "%s with %s workers: item %d is %s, alone and serially it is %s" % (k, s["ncores"], j, describe_any(g), describe_any(w)))
            if k == "mcmc":
                # ends wherever the last evaluation was
                bases[m] = None
            continue
        if k == "close" or k == "abandon":
            ctx.count("op:pool_" + op["how"])
            p = getattr(mod, "pool", None)
            if p:
                getattr(p, op["how"])()
                if op["how"] == "terminate":
                    p.join()
                if k == "abandon":
                    mod.create_pool()
            continue
        if k == "pool":
            # the user resizes the pool
            if s["ncores"] == 0:
                continue
        val, err = ops.do(st, op)
        ctx.log(op["id"], k, type(err).__name__ if err is not None else "ok")
        if err is not None:
            raise Violation("error", "%s raised %r" % (k, err))
        if k == "set_vec" and bases[m] is not None:
            full = np.array(bases[m]["full"])
            full[mod.prior_arg] = op["p"]
            bases[m] = {"full": full.tolist(), "lk": bases[m]["lk"]}
        elif k == "set_full" and bases[m] is not None:
            bases[m] = {"full": full_of(mod, op["p"], op.get("other", {})).tolist(), "lk": bases[m]["lk"]}
        elif k in ("lprob", "set_vec", "set_full"):
            bases[m] = None


def describe_any(x):
    if isinstance(x, (list, tuple)):
        return "(" + ", ".join(describe(v) for v in x[:4]) + ")"
    return describe(x)


def nontrivial(stats):
    return stats.get("check:parallel_batches", 0) >= 1
