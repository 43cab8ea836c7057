"""C10: whatever the model is asked, it answers for its current parameters."""
import copy

import numpy as np

from .. import core, ops, simpool, world
from ..core import Violation, describe, same
from ..world import FAMS

PROP = "C10"
WARM = {"kf", "enkf", "tmat", "npas"}
QUICK, THOROUGH = 220, 4000
RULE = ("one run = one prepared model and a random history of parameter changes, simulations, filter runs and evaluations, some failing or "
        "interrupted; every answer is compared with that of a fresh model with the parameters a small reference model of the session predicts. "
        "Non-trivial: at least three compared answers after two or more parameter changes; distinct by event log.")

READ = ["get", "get", "get_vec", "get_cov", "irfs", "irfs", "simulate", "t_func", "traj", "k_map", "obs", "get_ll", "run_filter", "set_npar", "get_npar", "bad_set", "nhd", "gfevd", "misc",
        "prior_sampler", "get_prior", "extract"]
WRITE = ["set_vec", "set_vec", "set_full", "set_name", "set_name", "set_named", "set_lk"]
BLUR = ["lprob", "mcmc", "reprep"]
NEUTRAL = ["pool", "rng", "clock", "save", "other_lprob", "other_irfs", "warnings"]
SCRIBBLE = {"get", "get_vec", "get_cov", "irfs", "simulate", "t_func", "traj", "k_map", "obs", "set_npar", "get_npar", "nhd", "gfevd", "prior_sampler", "get_prior", "extract",
            "set_vec", "set_full", "set_name", "set_named", "set_lk"}
# the model is broken, these are no answers
BROKEN = ("AttributeError", "NameError", "UnboundLocalError", "TypeError", "ImportError", "ModuleNotFoundError", "KeyError", "RecursionError")
HARMLESS = {"get", "get_vec", "irfs", "simulate", "extract", "prior_sampler", "get_prior"}
COMPARED = set(READ) - {"bad_set"}


def generate(rng, i, tier):
    setup = world.gen_setup(rng)
    fam = setup["fam"]
    if not setup["linear"] and rng.random() < .5:
        setup["reduced"] = False
    sets = [rng.sample(READ, rng.randrange(5, len(READ))), WRITE, rng.sample(BLUR, 2), rng.sample(NEUTRAL, 3)]
    pf = rng.choice([0, .08, .25])
    out = []
    pts = [world.gen_point(rng, fam, "safe") for _ in range(2)]
    again = []
    for j in range(rng.randrange(8, 18 if tier == "quick" else 36)):
        kinds = sets[rng.choices(range(4), [55, 30, 9, 6])[0]]
        k = rng.choice(kinds)
        if len(again) == 2:
            # ask the same question again after a change
            k = rng.choice(["set_lk", "set_lk", "set_name", "set_vec", rng.choice(sets[3])])
            again.pop()
        elif len(again) == 1 and "aside" not in again[0] and rng.random() < (.5 if again[0]["op"] in ("traj", "k_map") else .2):
            # what is asked first after the change is something else
            k = rng.choice(["traj", "k_map"] if again[0]["op"] in ("traj", "k_map") else sets[0])
            again = [dict(again[0], aside=True)]
        elif len(again) == 1:
            op = dict(again.pop(), id=j)
            op.pop("aside", None)
            op.pop("fault", None)
            out.append(op)
            continue
        if k == "lprob":
            op = {"op": "lprob", "p": world.gen_point(rng, fam, rng.choice(["ok", "wide"])), "sampler": setup["transform"], "kw": {}}
        else:
            op = ops.gen_noise(rng, setup, [k])
        if op["op"] == "get" and op["what"] == "mode" and not any(o["op"] == "mcmc" for o in out):
            op["what"] = "calib"
        if op["op"] == "get" and rng.random() < .5:
            op.update(what=rng.choice(["init", "best", "calib", "prior_mean", "mode" if any(o["op"] == "mcmc" for o in out) else "init"]), full=False, asdict=False)
        if op["op"] == "set_vec" and rng.random() < .4:
            op["p"] = rng.choice(pts)
        if k in COMPARED and not again and rng.random() < (.6 if k in ("get", "traj", "k_map") else .25):
            again = [op, op]
        if rng.random() < pf and op["op"] not in ("mcmc", "save", "clock", "rng", "warnings", "pool"):
            op["fault"] = ops.gen_fault(rng, ("interrupt", "memory"))
            op["trust"] = rng.random() < .5
        if op["op"] in SCRIBBLE and rng.random() < (.7 if again else .35):
            op["scribble"] = True
        op["recover"] = {"p": world.gen_point(rng, fam, "safe"), "lk": rng.choice([[2, 8], [3, 16], [2, 17]])}
        op["id"] = j
        out.append(op)
    return {"setup": setup, "sched": {"seed": rng.randrange(10 ** 6), "dist": rng.choice(["uniform", "skew", "reverse"])}, "ops": out}


def ref_probes(setup, probes):
    """answers of a fresh model, each from its own process"""
    core.quiet()
    mod = world.make_model(world.serial(setup))
    return [core.fork_call(_probe, mod, setup, *p) for p in probes]


class _Bare:
    def __init__(self, mod, setup):
        self.mod, self.setup = mod, setup


def _probe(mod, setup, par, lk, op):
    mod.set_par(np.array(par), l_max=lk[0], k_max=lk[1])
    if op["op"] == "irfs" and op.get("pars") is not None:
        # impulse responses for other parameters are those of a model with these
        r = [core.fork_call(_irf_at, mod, op, p) for p in op["pars"][:None if op.get("batch", True) else 1]]
        bad = [x for x in r if x[0] == "error"]
        if bad:
            return bad[0]
        if not op.get("batch", True):
            return r[0]
        r = [x[1] for x in r]
        return ("value", (np.array([x[0].values for x in r]), np.vstack([x[1][0] for x in r] + [x[1][1] for x in r]), np.array([x[2] for x in r])))
    try:
        return ("value", ops.OPS[op["op"]](_Bare(mod, setup), op))
    except Exception as e:
        return ("error", type(e).__name__)


def _irf_at(mod, op, p):
    one = {k: v for k, v in op.items() if k not in ("pars", "lk")}
    try:
        mod.set_par(np.array(p), **(op.get("lk") or {}))
    except ValueError:
        # no solution
        one = dict(op, pars=[p], batch=False)
    try:
        return ("value", ops.OPS["irfs"](_Bare(mod, None), one))
    except Exception as e:
        return ("error", type(e).__name__)


def execute(plan, ctx):
    setup = plan["setup"]
    simpool.install(ctx, **plan["sched"])
    st = ops.State(ctx, setup, world.model_dir(ctx))
    mod = st.mod = world.make_model(setup, st.dir)
    names = [str(p) for p in mod.parameters]
    fix = np.array(mod.par_fix, dtype=float).copy()
    arg = list(mod.prior_arg)
    prep_lk = [1, 0] if setup["linear"] else [3, 16]
    lk = list(prep_lk)
    exp = np.array(mod.get_par(), dtype=float)
    sampled = None
    probes, got = [], []
    known = True

    def current():
        try:
            return np.array(mod.get_par(), dtype=float)
        except Exception as e:
            raise Violation("error", "get_par raised %r" % (e,))

    for op in plan["ops"]:
        ctx.op = op
        if not known:
            rec = op["recover"]
            exp = fix.copy()
            exp[arg] = rec["p"]
            lk = list(rec["lk"])
            simpool.SCHED.begin_op("rec%s" % op["id"])
            try:
                mod.set_par(exp.copy(), l_max=lk[0], k_max=lk[1])
            except Exception as e:
                raise Violation("recovery", "setting all parameters after a failed or interrupted operation raised %r" % (e,))
            known = True
            ctx.count("probe:recoveries")
        name = op["op"]
        val, err = ops.do(st, op)
        if op.get("scribble") and err is None:
            # results belong to the caller
            val, mine = copy.deepcopy(val), val
            ctx.count("probe:results_overwritten")
            scribble(mine)
        ctx.log(op["id"], name, type(err).__name__ if err is not None else "ok")
        if op.get("fault"):
            if name in HARMLESS and op.get("trust"):
                # asking never changes the model, neither if it is interrupted or fails
                ctx.count("check:unchanged_by_failures")
                cur = current()
                if not same(cur, exp):
                    raise Violation("changed", "%s, interrupted or failed, changed the parameters from %s to %s" % (name, describe(exp), describe(cur)))
                continue
            known = False
            continue
        if name in WRITE:
            if err is not None:
                p = op.get("p")
                if name in ("set_vec", "set_full", "set_name", "set_lk") and isinstance(err, Exception):
                    known = False       # judged below: a fresh model must fail as well
                    probes.append((exp if exp is not None else fix, lk, {k: v for k, v in op.items() if k != "fault"}))
                    got.append((op, ("error", type(err).__name__)))
                    continue
                raise Violation("error", "setting parameters (%s) raised %r" % (op, err))
            base = exp.copy()
            if "kw" in op:
                lk = [op["kw"].get("l_max", lk[0]), op["kw"].get("k_max", lk[1])]
            if name == "set_lk":
                pass
            elif name == "set_vec":
                base[arg] = op["p"]
            elif name == "set_full":
                base = fix.copy()
                for k, v in op.get("other", {}).items():
                    base[names.index(k)] = v
                base[arg] = op["p"]
            elif name == "set_name":
                base[names.index(op["name"])] = op["val"]
            elif op["what"] == "calib":
                base = fix.copy()
            elif op["what"] == "prior_mean":
                base = fix.copy()
                base[arg] = [.5 * (q[-2] + q[-1]) if "uniform" in q else q[-2] for q in mod.prior.values()]
            elif op["what"] == "init":
                base = fix.copy()
                for a, q in zip(arg, mod.prior.values()):
                    if len(q) == 6:
                        base[a] = q[0]
            else:
                base = current()
            exp = base
            ctx.count("check:parameters_set")
            cur = current()
            if not same(cur, exp):
                raise Violation("parameters", "after %s the parameters are %s instead of %s" % (
                    {k: op[k] for k in op if k not in ("recover",)}, describe(cur), describe(exp)))
            if val is not None and not same(np.array(val, dtype=float), exp):
                raise Violation("parameters", "set_par returned %s instead of the parameters %s" % (describe(val), describe(exp)))
            continue
        if name in BLUR:
            if err is not None:
                known = False
                continue
            if name == "mcmc":
                sampled = np.array(mod.get_par("mode", full=False), dtype=float).copy()
            if name == "lprob":
                if not np.isfinite(val):
                    known = False
                    continue
                lk = list(prep_lk)
            elif name == "reprep":
                lk = list(prep_lk)
            else:
                # leaves the model at the last point it has looked at, which need not have a solution
                known = False
                continue
            exp = current()
            continue
        if name in COMPARED:
            if err is not None and not isinstance(err, Exception):
                raise Violation("error", "%s raised %r" % (name, err))
            if name == "get" and op.get("what") in ("best", "mode") and sampled is not None:
                if not op.get("full", True) and not op.get("asdict"):
                    ctx.count("check:modes")
                    if err is not None or not same(np.array(val, dtype=float), sampled):
                        raise Violation("answer", "the mode is %s, it was %s" % (describe_any(val) if err is None else repr(err), describe(sampled)))
            elif not (name == "get" and op.get("what") == "init" and sampled is not None):
                probes.append((exp.copy(), list(lk), {k: v for k, v in op.items() if k != "fault"}))
                got.append((op, ("error", type(err).__name__) if err is not None else ("value", val)))
        if name == "get_vec" and err is None and not op.get("asdict"):
            want = np.array(op["p"], dtype=float)
            if op["full"]:
                want = exp.copy()
                want[arg] = op["p"]
            ctx.count("check:given_vectors")
            if not same(np.array(val, dtype=float), want):
                raise Violation("parameters", "asked for the parameters of a vector, the model answers %s instead of %s" % (describe(np.array(val)), describe(want)))
        if name in ("set_npar", "get_npar") and err is None:
            want = np.array(op["p"], dtype=float)
            if op.get("whole") or (name == "get_npar" and not op.get("what")):
                want, p = (fix if op.get("whole") else exp).copy(), want
                want[arg] = p
            index = names if len(want) == len(names) else FAMS[setup["fam"]]["names"]
            if name == "set_npar":
                want[index.index(op["name"])] = op["val"]
            elif op.get("what"):
                want = want[index.index(op["what"])]
            ctx.count("check:given_vectors")
            if not same(np.array(val, dtype=float), want):
                raise Violation("parameters", "%s answers %s instead of %s" % (name, describe(np.array(val)), describe(want)))
        if name == "bad_set" and err is None:
            raise Violation("error", "setting the unknown parameter %r was accepted" % op["name"])
        cur = current()
        ctx.count("check:parameters_unchanged")
        if not same(cur, exp):
            raise Violation("changed", "%s changed the parameters from %s to %s" % (name, describe(exp), describe(cur)))

    want = ctx.fresh(ref_probes, setup, probes)
    for (op, g), w in zip(got, want):
        ctx.op = op
        ctx.count("check:answer")
        ctx.log("answer", op["id"], op["op"], g[0], core.jsonable(_flat(g[1])))
        if w[0] == "error":
            if w[1] in BROKEN:
                raise Violation("error", "%s of a fresh model raised %s" % (op["op"], w[1]))
            ctx.count("probe:answer_%s_%s" % (op["op"], w[1]))
        if g[0] != w[0] or not same(_flat(g[1]), _flat(w[1])):
            raise Violation("answer", "%s answers %s %s, a fresh model with these parameters %s %s" % (
                op["op"], g[0], describe_any(g[1]), w[0], describe_any(w[1])))


def scribble(x):
    import pandas as pd
    if isinstance(x, (pd.DataFrame, pd.Series)):
        x = x.values
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fi":
            x[...] = 99
    elif isinstance(x, dict):
        for k in list(x):
            scribble(x[k])
            x[k] = 99
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
        if isinstance(x, list):
            for i in range(len(x)):
                x[i] = 99


def _flat(x):
    import pandas as pd
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return x.values
    if isinstance(x, dict):
        return {str(k): v for k, v in x.items()}
    if isinstance(x, (list, tuple)) and len(x) and not np.isscalar(x[0]):
        return [_flat(v) for v in x]
    return x


def describe_any(x):
    x = _flat(x)
    if isinstance(x, (list, tuple)):
        return "(" + ", ".join(describe(v) for v in x[:3]) + ")"
    return describe(x)


def nontrivial(stats):
    return stats.get("check:answer", 0) >= 3 and stats.get("check:parameters_set", 0) >= 2
