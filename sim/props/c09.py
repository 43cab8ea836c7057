"""C09: the chain contains only what the posterior says, also when evaluations fail."""
import os

import numpy as np

from .. import chain, core, faults, ops, simpool, world
from ..core import Violation, describe, same
from ..world import FAMS

PROP = "C09"
WARM = {"kf", "enkf"}
QUICK, THOROUGH = 180, 5000
RULE = ("one run = a session of posterior sampling calls (given or default ensembles, tempering, tuning lengths, transformation, worker counts and schedules, resumed runs) "
        "while evaluations fail, by parameter or at random times; every stored draw, the start, the counts and the mode are compared with values of fresh serial processes. "
        "Non-trivial: at least one sampling run with accepted draws was compared; distinct by event log.")


def generate(rng, i, tier):
    setup = world.gen_setup(rng, ncores=rng.choice([0, 0, 2, 3]))
    setup["T"], setup["N"] = 8, 12
    if not setup["linear"]:
        setup["reduced"] = rng.random() < .7
    fam = setup["fam"]
    nd = len(FAMS[fam]["names"])
    bad = None
    if rng.random() < .7:
        bad = {"kind": rng.choice(faults.BadFilter.KINDS)}
        if rng.random() < .65:
            bad.update(mod=rng.choice([2, 3, 5, 9]), salt=rng.randrange(1000))
        else:
            bad.update(nth=sorted(rng.sample(range(1, 60), rng.choice([2, 6, 20]))))
    out = []
    for j in range(rng.choice([1, 2, 2, 3] if tier == "quick" else [3, 4, 5, 6])):
        op = {"op": "mcmc", "id": j, "n": rng.choice([1, 2, 3, 5]) if setup["linear"] else rng.choice([1, 2, 3]), "tune": rng.choice([None, None, 1, 2, 3, 7]), "moves": rng.choice(["de", "stretch", "dime"]),
              "temp": rng.choice([False, False, False, 1, .5, .01, 0.0, float("%.2g" % 10 ** rng.uniform(-5, .5))]), "store": rng.choice([None, None, "default", "s%d.h5" % j]), "seed": rng.choice([None, rng.randrange(100)]),
              "touch": world.gen_point(rng, fam) if rng.random() < .3 else None}
        if rng.random() < .6:
            kinds = ["safe"] * 5 + (["ok", "wide", "wide"] if rng.random() < .4 else []) + (["indet", "outside"] if not setup["transform"] and rng.random() < .3 else [])
            op["p0"] = [world.gen_point(rng, fam, rng.choice(kinds)) for _ in range(2 * nd + rng.choice([0, 0, 1, 2]))]
        else:
            op["nwalks"] = 2 * nd + rng.choice([0, 1, 3])
        if j and rng.random() < .3:
            op["resume"] = True
            op["store"] = out[-1]["store"]
        out.append(op)
    return {"setup": setup, "bad": bad, "sched": {"seed": rng.randrange(10 ** 6), "dist": rng.choice(["uniform", "skew", "one_slow", "reverse"])}, "ops": out}


def points_ref(setup, bad, pts):
    """(log-posterior, log-prior) of points in the parameter space, each as first evaluation in its own process"""
    core.quiet()
    mod = world.make_model(world.serial(setup))
    if bad and "mod" in bad:
        faults.BadFilter(bad["kind"], mod=bad["mod"], salt=bad["salt"]).install()
    return [core.fork_call(_point, mod, p) for p in pts]


def _point(mod, p):
    x = np.array(p, dtype=float)
    return float(mod.lprob(x, verbose=False, use_prior_transform=False, temp=1)), float(mod.lprior(x))


def start_of(mod, what):
    """centre of the default ensemble"""
    if what == "init":
        out = []
        for i, (n, v) in enumerate(mod.prior.items()):
            out.append(float(v[0]) if len(v) > 3 and not isinstance(v[0], str) else float(mod.par_fix[mod.prior_arg[i]]))
        return np.array(out)
    return np.array([.5 * v[-2] + .5 * v[-1] if "uniform" in v else v[-2] for v in mod.prior.values()], dtype=float)


def execute(plan, ctx):
    import emcee
    setup = plan["setup"]
    fam = setup["fam"]
    d = world.model_dir(ctx)
    simpool.install(ctx, seed=plan["sched"]["seed"], dist=plan["sched"]["dist"])
    st = ops.State(ctx, setup, d)
    mod = world.make_model(setup, d)
    nd = len(FAMS[fam]["names"])
    starts = []
    orig = emcee.EnsembleSampler.sample

    def sample(self, initial_state, *a, **kw):
        starts.append(np.array(getattr(initial_state, "coords", initial_state), dtype=float))
        return orig(self, initial_state, *a, **kw)

    emcee.EnsembleSampler.sample = sample
    bad = plan["bad"]
    flt = None
    if bad:
        flt = faults.BadFilter(bad["kind"], **({"mod": bad["mod"], "salt": bad["salt"]} if "mod" in bad else {"nth": bad["nth"]})).install()
    mode = None
    prev = None
    explicit = None          # an explicitly named storage file is kept
    for op in plan["ops"]:
        ctx.op = {k: v for k, v in op.items() if k != "p0"}
        simpool.SCHED.begin_op(op["id"])
        if op["touch"]:
            try:
                mod.set_par(np.array(op["touch"]))
            except Exception:
                pass
        kw = dict(nsteps=op["n"], tune=op["tune"], moves=chain.move_of(op["moves"]), temp=op["temp"], verbose=False, seed=op["seed"])
        resume = op.get("resume") and prev is not None
        if op["store"] is None:
            kw["backend"] = False
            resume = False
        elif op["store"] != "default":
            kw["backend"] = explicit = os.path.join(d, op["store"])
        if op["store"] == "default" and explicit and not resume:
            # would go to the explicit one
            kw["backend"] = explicit
        before = prev if resume else None
        p0 = None
        if resume:
            kw["resume"] = True
        elif "p0" in op:
            p0 = np.array(op["p0"])
            kw["p0"] = p0.copy()
        else:
            kw["nwalks"] = op["nwalks"]
        nfired = flt.fired if flt else 0
        del starts[:]
        try:
            mod.mcmc(**kw)
        except Exception as e:
            if chain.from_dime(e):
                ctx.count("fault:sampler_package_failed")
                ctx.log("mcmc", op["id"], "dime")
                prev = None
                continue
            raise Violation("error", "sampling raised %r" % (e,))
        if flt and flt.fired > nfired:
            ctx.count("fault:evaluation_" + bad["kind"], flt.fired - nfired)
        nw = before["chain"].shape[1] if resume else len(p0) if p0 is not None else op["nwalks"]
        ch, lp = np.array(mod.sampler.get_chain()), np.array(mod.sampler.get_log_prob())
        ntot = op["n"] + (before["n"] if resume else 0)
        if ch.shape != (ntot, nw, nd):
            raise Violation("count", "the chain has shape %s instead of %s" % (ch.shape, (ntot, nw, nd)))
        # the start
        x0 = starts[0] if starts else None
        if x0 is not None:
            xp = world.from_sampler(fam, x0) if setup["transform"] else x0
            if p0 is not None and not same(xp, p0, rtol=1e-6):
                raise Violation("start", "sampling starts at %s instead of the given %s" % (describe(xp), describe(p0)))
            if resume and not same(x0, before["chain"][-1]):
                raise Violation("start", "the resumed sampling starts at %s instead of the last ensemble" % describe(x0))
            if not resume and p0 is None:
                t = 1 if op["temp"] is False else op["temp"]
                want = start_of(mod, "prior_mean") if t < 1 else np.array(mode) if mode is not None else start_of(mod, "init")
                dev = np.abs(xp / want - 1)
                if xp.shape != (nw, nd) or not np.all(dev < .01) or len(np.unique(xp[:, 0])) < nw:
                    raise Violation("start", "the default ensemble %s is not a perturbation of %s" % (describe(xp), describe(want)))
            ctx.count("check:starts")
        # every draw
        par = world.from_sampler(fam, ch) if setup["transform"] else ch
        n0 = before["n"] if resume else 0
        temp = 1 if op["temp"] is False else op["temp"]
        pts, where = [], {}
        for s in range(n0, ntot):
            for w in range(nw):
                key = par[s, w].tobytes()
                if key not in where:
                    where[key] = len(pts)
                    pts.append(par[s, w].tolist())
        vals = ctx.fresh(points_ref, setup, bad, pts)
        start_par = None
        if x0 is not None:
            start_par = {v.tobytes() for v in ch[n0 - 1]} if resume else {v.tobytes() for v in x0}
        acc = 0
        for s in range(n0, ntot):
            for w in range(nw):
                one, prior = vals[where[par[s, w].tobytes()]]
                want = prior if not temp else -np.inf if not np.isfinite(one) else prior + temp * (one - prior)
                if not np.isfinite(prior):
                    want = -np.inf
                if (s, w) and ch[s, w].tobytes() not in (start_par or ()):
                    acc += 1
                ctx.count("check:draws")
                initial = start_par is not None and ch[s, w].tobytes() in start_par
                if initial and not np.isfinite(lp[s, w]):
                    # the evaluation of an initial draw may have failed, at this time or always
                    if bad or not np.isfinite(want):
                        continue
                if not np.isfinite(lp[s, w]) or not np.isfinite(want) or not same(lp[s, w], want, rtol=1e-6, atol=1e-6):
                    raise Violation("log-posterior", "step %d, walker %d: draw %s is stored with %.8g, but its log-posterior (temperature %s) is %.8g" % (
                        s, w, describe(par[s, w]), lp[s, w], temp, want))
        if acc:
            ctx.count("check:accepted", acc)
        # the mode
        if temp == 1:
            keep = op["tune"] if op["tune"] is not None else int(op["n"] / 5)
            ret, rlp = par[-keep:].reshape(-1, nd), lp[-keep:].ravel()
            mx, mf = np.array(mod.fdict["mode_x"], dtype=float), float(mod.fdict["mode_f"])
            if not same(mf, rlp.max()):
                raise Violation("mode", "the log-posterior of the mode is %.8g, the best of the retained draws has %.8g" % (mf, rlp.max()))
            if not any(same(mx, r) and same(l, mf) for r, l in zip(ret, rlp)):
                raise Violation("mode", "the mode %s is none of the retained draws with log-posterior %.8g" % (describe(mx), mf))
            mode = mx
            got = np.array(mod.get_par("mode", full=False), dtype=float)
            best = np.array(mod.get_par("best", full=False), dtype=float)
            if not same(got, mx) or not same(best, mx):
                raise Violation("mode", "the reported mode is %s, the best draw %s" % (describe(got), describe(mx)))
            post = np.array(mod.get_par("posterior", nsamples=4, full=False))
            for r in post:
                if not any(same(r, q) for q in ret):
                    raise Violation("mode", "a draw from the posterior %s is not among the retained ones" % describe(r))
            ctx.count("check:modes")
        got = np.array(mod.get_chain())
        if not same(got, par):
            raise Violation("chain", "the model reports another chain than the stored one")
        prev = {"n": ntot, "chain": ch} if op["store"] else None
        if op["store"]:
            ctx.count("check:stored")
        ctx.log("mcmc", op["id"], list(ch.shape), core.digest(ch), core.digest(lp))


def nontrivial(stats):
    return stats.get("check:accepted", 0) >= 1
