"""C11: a failing item never contaminates the rest of a batch."""
import os

import numpy as np

from .. import core, faults, ops, simpool, world
from ..core import Violation, describe, same
from ..world import FAMS
from . import c02

PROP = "C11"
WARM = {"kf", "enkf", "npas"}
QUICK, THOROUGH = 145, 3500
RULE = ("one run = a session of batch operations (impulse responses, extraction, prior sampling) in which items have no solution or their evaluation or smoothing fails, always or "
        "at some attempts, under simulated worker schedules; all items are compared with fresh serial processes and the model is probed afterwards. Non-trivial: at least one "
        "batch with a failing item was compared; distinct by event log.")


def generate(rng, i, tier):
    kind = rng.choice(["irfs", "irfs", "prior", "prior", "extract"])
    fam = "m1" if kind == "irfs" or rng.random() < .5 else rng.choice(["m2", "m3"])
    setup = world.gen_setup(rng, fam=fam, linear=False if kind == "extract" else None, ncores=rng.choice([0, 2, 3, 4]), transform=rng.random() < .2)
    setup["T"], setup["N"] = 8, 12
    if not setup["linear"]:
        setup["reduced"] = False
    plan = {"setup": setup, "low": fam == "m1" and rng.random() < .7, "sched": {"seed": rng.randrange(10 ** 6), "dist": rng.choice(["uniform", "skew", "one_slow", "one_fast", "reverse"])}}
    out = []
    for j in range(rng.choice([1, 2, 3] if tier == "quick" else [3, 5, 8])):
        k = kind if rng.random() < .7 else rng.choice(["irfs", "prior"])
        op = {"op": k, "base": {"p": world.gen_point(rng, fam, "safe"), "lk": rng.choice([[2, 8], [3, 16]])}}
        if k == "irfs":
            kinds = ["ok", "safe", "wide"] + (["indet"] * rng.choice([1, 3, 8]) if fam == "m1" else [])
            op.update(pars=[world.gen_point(rng, fam, rng.choice(kinds)) for _ in range(rng.choice([2, 3, 5, 8]))], shocks=ops.gen_shocks(rng, fam), T=rng.choice([3, 6]),
                      linear=rng.random() < .15, full=rng.random() < .25)
            if rng.random() < .15:
                op["pars"] = op["pars"][:1]
                op["single"] = True
        elif k == "prior":
            op.update(n=rng.choice([1, 3, 6, 10]), seed=rng.randrange(1000), check=rng.random() < .6, how=rng.choice(["sampler", "get_par"]))
            if rng.random() < .3:
                op["max_attempts"] = rng.choice([1, 2, 60])
            if op["check"] and rng.random() < .7:
                op["bad"] = {"kind": rng.choice(faults.BadFilter.KINDS), "mod": rng.choice([2, 3, 4]), "salt": rng.randrange(1000)}
        else:
            op.update(pars=[world.gen_point(rng, fam, "safe") for _ in range(rng.choice([1, 2, 3, 4]))], seed=rng.randrange(100), nsamples=rng.choice([1, 1, 2]), accept=rng.random() < .6,
                      nattemps=rng.choice([None, None, 1, 2, 3]))
            op["bad"] = {"kind": rng.choice(["raise", "linalg", "memory", "index"]), "salt": rng.randrange(1000), "always": rng.choice([None, 2, 3]), "some": rng.choice([None, 2, 2, 3])}
        op["id"] = j
        out.append(op)
    plan["ops"] = out
    plan["probe"] = {"p": world.gen_point(rng, fam, "safe"), "pars": [world.gen_point(rng, fam, "safe") for _ in range(2)], "shocks": ops.gen_shocks(rng, fam)}
    return plan


def prepare_dir(d, low):
    if low:
        y = os.path.join(d, "m1.yaml")
        s = open(y).read()
        new = s.replace("phi_pi  : [1.7, 1.0, 3, normal, 1.5, 0.25]", "phi_pi  : [1.7, .3, 3, normal, 1.08, 0.3]")
        if new == s:
            raise core.HarnessError("model text")
        with open(y, "w") as f:
            f.write(new)


def set_base(mod, op):
    full = np.array(mod.par_fix, dtype=float)
    full[mod.prior_arg] = op["base"]["p"]
    mod.set_par(full, l_max=op["base"]["lk"][0], k_max=op["base"]["lk"][1])


def run_irfs(mod, op, items=None):
    idx = range(len(op["pars"])) if items is None else items
    pars = [np.array(op["pars"][i]) for i in idx]
    if op["full"]:
        pars = [c02.full_of(mod, p, {}) for p in pars]
    X, LK, flag = mod.irfs([tuple(s) for s in op["shocks"]], pars=pars[0] if op.get("single") else pars, T=op["T"], verbose=False, linear=op["linear"])
    n = len(pars)
    if op.get("single"):
        return [(np.array(X, dtype=float), np.array(LK[0], dtype=float), np.array(LK[1], dtype=float), flag)]
    c02.shapes_ok("irfs", [(len(X), n), (len(LK), 2 * n), (np.size(flag), n)])
    return [(X[j], LK[j], LK[n + j], np.ravel(flag)[j]) for j in range(n)]


def ref_irfs(setup, d, op):
    core.quiet()
    mod = world.make_model(world.serial(setup), d)
    return [core.fork_call(_irfs_one, mod, op, i) for i in range(len(op["pars"]))]


def _irfs_one(mod, op, i):
    set_base(mod, op)
    # is there a solution?
    p = np.array(op["pars"][i])
    ok = core.fork_call(_solvable, mod, c02.full_of(mod, p, {}) if op["full"] else p)
    r = run_irfs(mod, op, [i])[0] if ok else None
    return ok, r


def _solvable(mod, p):
    try:
        mod.set_par(p)
        return True
    except ValueError:
        return False


def run_prior(mod, op):
    kw = {"max_attempts": op["max_attempts"]} if "max_attempts" in op else {}
    if op["how"] == "sampler":
        return np.array(mod.prior_sampler(op["n"], seed=op["seed"], check_likelihood=op["check"], verbose=2, **kw))
    return np.array(mod.get_par("prior", nsamples=op["n"], seed=op["seed"], check_likelihood=op["check"], full=False, verbose=2, **kw))


def valid(setup, d, op, draws):
    """per draw: (has a solution, has a finite likelihood)"""
    core.quiet()
    mod = world.make_model(world.serial(setup), d)
    if op.get("bad"):
        faults.BadFilter(**op["bad"]).install()
    return [core.fork_call(_valid, mod, op, p) for p in draws]


def _valid(mod, op, p):
    ok = core.fork_call(_solvable, mod, np.array(p))
    lp = float(mod.lprob(np.array(p, dtype=float), verbose=False, use_prior_transform=False)) if op["check"] else 0.
    return ok, bool(np.isfinite(lp))


def run_extract(mod, op, items=None):
    kw = {} if op["nattemps"] is None else {"nattemps": op["nattemps"]}
    pars = [np.array(p) for p in (op["pars"] if items is None else [op["pars"][i] for i in items])]
    r = mod.extract(sample=pars, seed=op["seed"], nsamples=op["nsamples"], accept_failure=op["accept"], verbose=False, **kw)
    n = len(r["pars"])
    c02.shapes_ok("extract", [(len(r[q]), n) for q in ("pars", "init", "resid", "flags")])
    return [tuple(np.array(r[q][j], dtype=float) for q in ("pars", "init", "resid", "flags")) for j in range(n)]


def ref_extract(setup, d, op, path):
    """every parameter vector alone -> list over its samples of results (None where all attempts fail)"""
    core.quiet()
    mod = world.make_model(world.serial(setup), d)
    set_base(mod, op)
    return [core.fork_call(_extract_one, mod, op, i, "%s.%d" % (path, i)) for i in range(len(op["pars"]))]


def _extract_one(mod, op, i, path):
    bad = faults.BadSmoother(path, **op["bad"]).install()
    try:
        res = run_extract(mod, dict(op, accept=True), [i])
    except Exception as e:
        res = []
    att = bad.attempts()
    items = []
    for key, seed, ok in att:
        if not items or items[-1][0] != key:
            items.append([key, 0])
        items[-1][1] |= ok
    if len(items) != op["nsamples"] or sum(x[1] for x in items) != len(res):
        raise Violation("extract", "extraction of one parameter vector: %d results for attempts %s" % (len(res), att))
    it = iter(res)
    return [next(it) if x[1] else None for x in items]


def probe_ref(setup, d, probe, base):
    core.quiet()
    mod = world.make_model(world.serial(setup), d)
    return core.fork_call(do_probe, mod, setup, probe, base)


def do_probe(mod, setup, probe, base):
    set_base(mod, {"base": base})
    X, LK, flag = mod.irfs([tuple(s) for s in probe["shocks"]], pars=[np.array(p) for p in probe["pars"]], T=4, verbose=False)
    lp = float(mod.lprob(np.array(probe["p"], dtype=float), verbose=False, use_prior_transform=False))
    ds = np.array(mod.prior_sampler(2, seed=5, verbose=2))
    return {"impulse responses": X, "durations": LK, "flags": flag, "log-posterior": lp, "prior draws": ds}


def execute(plan, ctx):
    setup = plan["setup"]
    d = world.model_dir(ctx)
    prepare_dir(d, plan["low"])
    simpool.install(ctx, **plan["sched"])
    ops.State(ctx, setup, d)
    mod = world.make_model(setup, d)
    for op in plan["ops"]:
        ctx.op = op
        simpool.SCHED.begin_op(op["id"])
        k = op["op"]
        ctx.count("op:" + k)
        set_base(mod, op)
        failed = 0
        if k == "irfs":
            want = ctx.ref(ref_irfs, setup, d, {q: v for q, v in op.items() if q != "id"})
            try:
                got = run_irfs(mod, op)
            except (Violation, core.HarnessError):
                raise
            except Exception as e:
                raise Violation("error", "a batch of impulse responses raised %r; items without solution: %s" % (e, [j for j, w in enumerate(want) if not w[0]]))
            for j, ((ok, w), g) in enumerate(zip(want, got)):
                ctx.count("check:items")
                if ok:
                    if not same(list(g), list(w)):
                        raise Violation("item", "impulse responses: item %d is %s, alone it is %s" % (j, c02.describe_any(g), c02.describe_any(w)))
                else:
                    failed += 1
                    if not np.all(np.isnan(g[0])) or not g[3]:
                        raise Violation("item", "impulse responses: item %d has no solution, but gives %s with flag %s" % (j, describe(g[0]), g[3]))
            if failed:
                ctx.count("fault:item_without_solution", failed)
            ctx.log(op["id"], k, [bool(w[0]) for w in want], [core.digest(g[0]) for g in got])
        elif k == "prior":
            bad = faults.BadFilter(**op["bad"]).install() if op.get("bad") else None
            err = None
            try:
                got = run_prior(mod, op)
            except (Violation, core.HarnessError):
                raise
            except Exception as e:
                err = e
            if bad:
                bad.remove()
                if bad.fired:
                    ctx.count("fault:evaluation_" + op["bad"]["kind"], bad.fired)
            if err is not None:
                # more than a few failures in a row are reported
                if "unsuccessful attemps" not in str(err) and "unsuccessful attempts" not in str(err):
                    raise Violation("error", "prior sampling raised %r" % (err,))
                ctx.count("fault:attempts_used_up")
                ctx.log(op["id"], k, "used up")
                failed = 1
            else:
                if got.shape != (op["n"], len(FAMS[setup["fam"]]["names"])):
                    raise Violation("count", "prior sampling returned %s for %d draws" % (got.shape, op["n"]))
                for j, (a, b) in enumerate(ctx.fresh(valid, setup, d, {q: v for q, v in op.items() if q != "id"}, got.tolist())):
                    ctx.count("check:draws")
                    if not a or not b:
                        raise Violation("draw", "draw %d from the prior is invalid: %s %s" % (j, got[j].tolist(), "no solution" if not a else "zero likelihood"))
                if len(np.unique(got[:, 0])) < op["n"]:
                    raise Violation("draw", "prior sampling returned the same draw several times")
                failed = bool(bad and bad.fired) or plan["low"]
                ctx.log(op["id"], k, core.digest(got))
        else:
            path = os.path.join(ctx.dir, "att%d" % op["id"])
            ref = ctx.fresh(ref_extract, setup, d, {q: v for q, v in op.items() if q != "id"}, path + "r")
            want = [x for r in ref for x in r]
            nfail = sum(w is None for w in want)
            bad = faults.BadSmoother(path, **op["bad"]).install()
            err = None
            try:
                got = run_extract(mod, op)
            except (Violation, core.HarnessError):
                raise
            except Exception as e:
                err = e
            bad.remove()
            att = bad.attempts()
            fails = sum(1 for a in att if not a[2])
            if fails:
                ctx.count("fault:smoothing_" + op["bad"]["kind"], fails)
            nmax = op["nattemps"] or 4
            for key in set(a[0] for a in att):
                mine = [a for a in att if a[0] == key]
                seeds = [a[1] for a in mine]
                if len(set(seeds)) < len(seeds):
                    raise Violation("retry", "a failed smoothing is repeated with the same random numbers (seeds %s)" % seeds)
                if err is None and (len(seeds) > nmax or (not any(a[2] for a in mine) and len(seeds) != nmax)):
                    raise Violation("retry", "%d attempts for one item, %d are permitted" % (len(seeds), nmax))
            failed = fails
            if err is not None:
                ctx.log(op["id"], k, "error", type(err).__name__)
                if not nfail:
                    raise Violation("error", "extraction raised %r, but all items succeed alone" % (err,))
                if op["accept"] and nfail < len(want):
                    raise Violation("error", "extraction raised %r, although failures are accepted and %d of %d items succeed" % (err, len(want) - nfail, len(want)))
                ctx.count("check:errors_reported")
            else:
                if nfail and not op["accept"]:
                    raise Violation("unreported", "extraction returned, although %d of %d items failed and failures are not accepted" % (nfail, len(want)))
                left = [w for w in want if w is not None]
                if len(got) != len(left):
                    raise Violation("count", "extraction returned %d results for %d items that succeed" % (len(got), len(left)))
                for j, (g, w) in enumerate(zip(got, left)):
                    ctx.count("check:items")
                    if not same(list(g), list(w)):
                        raise Violation("item", "extraction: result %d is %s, alone it is %s" % (j, c02.describe_any(g), c02.describe_any(w)))
                ctx.log(op["id"], k, [w is not None for w in want], [core.digest(g[2]) for g in got])
        if failed:
            ctx.count("check:failing_batches")
        # still usable?
        simpool.SCHED.begin_op("p%s" % op["id"])
        want = ctx.ref(probe_ref, setup, d, plan["probe"], plan["ops"][0]["base"])
        try:
            got = do_probe(mod, setup, plan["probe"], plan["ops"][0]["base"])
        except (Violation, core.HarnessError):
            raise
        except Exception as e:
            raise Violation("unusable", "after a batch of kind %s the model raised %r" % (k, e))
        for q in want:
            ctx.count("check:probes")
            if not same(want[q], got[q]):
                raise Violation("probe", "after a batch of kind %s the %s are %s instead of %s" % (k, q, describe(got[q]), describe(want[q])))


def nontrivial(stats):
    return stats.get("check:failing_batches", 0) >= 1
