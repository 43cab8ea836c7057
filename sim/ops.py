"""Operations a user performs on a prepared model, as data: generated, executed, dropped when minimising.

An operation is a dict {"op": name, ...}. It may carry a fault:
  {"kind": "interrupt" | "memory", "site": x, "occ": y}  an exception at a line inside the package (x, y in [0, 1) choose which)
  {"kind": "badfilter", "how": h}                        the next likelihood evaluation fails
  {"kind": "pool", "at": k}                              Ctrl-C while waiting for result k of a pool
"""
import os
import warnings

import numpy as np

from . import core, faults, simpool, world
from .core import Violation
from .world import FAMS


class State:
    """the simulated user's session"""

    def __init__(self, ctx, setup, d):
        self.ctx, self.setup, self.dir = ctx, setup, d
        self.mod = None
        self.others = {}
        self.clock = faults.Clock().install()
        self.last_error = None


EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError}


def _sites(fn, files):
    """lines of the package executed by fn, in order (in a forked copy of this process)"""
    rec = []

    def run():
        lf = faults.LineFault(-1, files=files)
        orig = lf._cb

        def cb(code, line):
            r = orig(code, line)
            if r is None:
                rec.append((code.co_filename, line))
            return r
        lf._cb = cb
        try:
            with lf:
                fn()
        except BaseException:
            pass
        ids = {}
        return [ids.setdefault(r, len(ids)) for r in rec]
    core_out = run
    return core.fork_call(core_out)


def line_of(fn, site, occ, files=(faults.PKG,)):
    """number of the executed line where the fault strikes: a site chosen uniformly, then one of its executions"""
    seq = _sites(fn, files)
    if not seq:
        return None
    nsites = max(seq) + 1
    s = min(int(site * nsites), nsites - 1)
    where = [i for i, x in enumerate(seq) if x == s]
    return where[min(int(occ * len(where)), len(where) - 1)] + 1


def with_fault(st, op, fn):
    """run fn under the fault of the operation -> (value, error)"""
    ctx = st.ctx
    f = op.get("fault")
    st.fired = None
    if simpool.SCHED is not None:
        simpool.SCHED.begin_op(op.get("id", 0), f["at"] if f and f["kind"] == "pool" else None)
    try:
        if not f or f["kind"] == "pool":
            return fn(), None
        if f["kind"] in EXC:
            n = line_of(fn, f["site"], f["occ"])
            if n is None:
                return fn(), None
            lf = faults.LineFault(n, EXC[f["kind"]])
            try:
                with lf:
                    return fn(), None
            finally:
                st.fired = lf.fired
                if lf.fired:
                    ctx.count("fault:%s_inside_operation" % f["kind"])
                    ctx.log("fault", f["kind"], lf.fired)
        if f["kind"] == "badfilter":
            bad = faults.BadFilter(f["how"], nth=[1]).install()
            try:
                return fn(), None
            finally:
                bad.remove()
                st.fired = bad.fired
                if bad.fired:
                    ctx.count("fault:evaluation_" + f["how"])
        raise core.HarnessError("unknown fault %r" % (f,))
    except (core.HarnessError, Violation):
        raise
    except BaseException as e:
        return None, e


def np_seeded(seed):
    return np.random.RandomState(seed)


# ---------------------------------------------------------------- the operations

def do(st, op):
    """-> (value, error)"""
    name = op["op"]
    st.ctx.count("op:" + name)
    fn = OPS[name]
    val, err = with_fault(st, op, lambda: fn(st, op))
    if name == "reprep" and err is not None:
        # the user prepares again
        if simpool.SCHED is not None:
            simpool.SCHED.begin_op("again%s" % op.get("id", 0))
        try:
            fn(st, op)
        except Exception as e:
            raise Violation("error", "preparing the model after an interrupted preparation raised %r" % (e,))
    return val, err


def _other(st, op):
    key = op.get("who", "b")
    if key not in st.others:
        s = op["setup"]
        st.others[key] = (s, world.make_model(s, st.dir))
    return st.others[key]


def op_set_vec(st, op):
    p = list(op["p"])
    try:
        return st.mod.set_par(p, **op.get("kw", {}))
    finally:
        p[:] = [99] * len(p)


def op_set_full(st, op):
    full = np.array(st.mod.par_fix, dtype=float)
    for k, v in op.get("other", {}).items():
        full[[str(x) for x in st.mod.parameters].index(k)] = v
    full[st.mod.prior_arg] = op["p"]
    try:
        return st.mod.set_par(full, **op.get("kw", {}))
    finally:
        full[:] = 99        # the array is the caller's


def op_set_name(st, op):
    return st.mod.set_par(op["name"], op["val"], **op.get("kw", {}))


def op_set_lk(st, op):
    """the current parameters with another horizon"""
    if op.get("again"):
        return st.mod.set_par(np.array(st.mod.get_par()), **op["kw"])
    return st.mod.set_par(**op["kw"])


def op_set_named(st, op):
    return st.mod.set_par(op["what"])


def op_get(st, op):
    return st.mod.get_par(op.get("what"), asdict=op.get("asdict", False), full=op.get("full", True), verbose=op.get("verbose", False))


def op_get_vec(st, op):
    """a vector in the form that is asked for"""
    v = npar_of(st, op)
    mine = v.copy()
    r = st.mod.get_par(v, asdict=op.get("asdict", False), full=op.get("full", True), verbose=op.get("verbose", False))
    if not np.array_equal(v, mine):
        raise Violation("changed", "get_par changed the vector it was given from %s to %s" % (mine, v))
    return r


def op_bad_set(st, op):
    return st.mod.set_par(op["name"], 1.0)


def npar_of(st, op):
    v = np.array(op["p"], dtype=float)
    if op.get("whole"):
        full = np.array(st.mod.par_fix, dtype=float)
        full[st.mod.prior_arg] = v
        return full
    return v


def op_set_npar(st, op):
    r = st.mod.set_par(op["name"], op["val"], npar=npar_of(st, op), **({"return_vv": True} if op.get("vv") else {}))
    if op.get("vv"):
        r, vv = r
        if list(vv) != list(st.mod.vv):
            raise Violation("answer", "set_par reports the variables %s instead of %s" % (list(vv), list(st.mod.vv)))
    return r


def op_get_npar(st, op):
    return st.mod.get_par(op.get("what"), npar=npar_of(st, op))


def op_get_cov(st, op):
    return st.mod.get_cov(npar=None if op.get("p") is None else npar_of(st, op))


def irf_shocks(op):
    """the shocks in one of the accepted spellings"""
    sh = [tuple(x) for x in op["shocks"]]
    form = op.get("form", "list")
    if form == "tuple":
        return sh[0]
    if form == "pair":
        return [x[:2] for x in sh]
    if form == "name":
        return sh[0][0]
    if form == "names":
        return [x[0] for x in sh]
    return sh


def irf_kwargs(mod, op):
    kw = dict(T=op.get("T", 8), verbose=op.get("verbose", False), linear=op.get("linear", False))
    if op.get("state") is not None:
        kw["state"] = np_seeded(op["state"]).randn(mod.dimx) * .2
    if "set_k" in op:
        kw["set_k"] = tuple(op["set_k"]) if isinstance(op["set_k"], list) else op["set_k"]
    if "force" in op:
        kw["force_init_equil"] = op["force"]
    kw.update(op.get("lk") or {})
    return kw


def op_irfs(st, op):
    kw = irf_kwargs(st.mod, op)
    if op.get("pars") is not None:
        kw["pars"] = [np.array(p) for p in op["pars"]] if op.get("batch", True) else np.array(op["pars"][0])
    return st.mod.irfs(irf_shocks(op), **kw)


def sim_args(mod, op):
    """innovations and initial states for `simulate`, a function of the operation only"""
    dimx, neps = op["dims"] if "dims" in op else (mod.dimx, len(mod.shocks))
    r = np_seeded(op["eps_seed"])
    n, T = len(op["pars"]), op.get("T", 6)
    eps = r.randn(n, T, neps) * op.get("scale", .3)
    init = r.randn(n, dimx) * .05
    return eps, init


def sim_call(mod, op, pars, eps, init):
    kw = dict(linear=op.get("linear", False), verbose=op.get("verbose", False))
    if op.get("mask"):
        import pandas as pd
        m = np.full(eps.shape[1:], np.nan)
        m[op["mask"][2] if len(op["mask"]) > 2 else 0:, op["mask"][0] % eps.shape[2]] = op["mask"][1]
        kw["mask"] = pd.DataFrame(m, columns=mod.shocks) if op.get("mask_frame") else m
        if op.get("add"):
            kw["operation"] = np.add
    kw.update(op.get("lk") or {})
    if op.get("direct"):
        return mod.simulate(pars=pars, resid=eps, init=init, **kw)
    src = {"pars": pars, "resid": eps, "init": init}
    if op.get("other_resid"):
        src["resid"] = eps * 0
        kw["resid"] = eps
    return mod.simulate(src, **kw)


def op_simulate(st, op):
    eps, init = sim_args(st.mod, op)
    return sim_call(st.mod, op, [np.array(p) for p in op["pars"]], eps, init)


def _x(mod, seed, scale=.3):
    return np_seeded(seed).randn(mod.dimx) * scale


def op_t_func(st, op):
    m = st.mod
    eps = np_seeded(op["seed"] + 7).randn(len(m.shocks)) * .3
    kw = dict(return_k=True)
    for k in ("linear", "get_obs", "verbose"):
        if k in op:
            kw[k] = op[k]
    if "set_k" in op:
        # not beyond the horizon of the solution
        l, k = op["set_k"] if isinstance(op["set_k"], list) else (1, op["set_k"])
        l, k = min(l, int(m.lks[0])), min(k, int(m.lks[1]))
        kw["set_k"] = (l, k) if isinstance(op["set_k"], list) else k
    return m.t_func(_x(m, op["seed"]), None if op.get("noeps") else eps, **kw)


def op_traj(st, op):
    m = st.mod
    q = np_seeded(op["seed"]).randn(m.dimq) * .2
    return m.traj(q, l=op.get("l"), k=op.get("k"), verbose=op.get("verbose", False))


def op_k_map(st, op):
    m = st.mod
    q = np_seeded(op["seed"]).randn(m.dimq) * .2
    return m.k_map(q, l=op.get("l"), k=op.get("k"), verbose=op.get("verbose", False))


def op_obs(st, op):
    m = st.mod
    r = np_seeded(op["seed"])
    if op.get("pars") is not None:
        X = r.randn(len(op["pars"]), 3, m.dimx)
        return m.obs(X, pars=[np.array(p) for p in op["pars"]])
    X = r.randn(3, m.dimx)
    if op.get("covs"):
        A = r.randn(3, m.dimx, m.dimx)
        return m.obs(X, covs=A @ np.swapaxes(A, 1, 2))
    return m.obs(X)


def op_nhd(st, op):
    """historic decomposition"""
    m = st.mod
    r = np_seeded(op["seed"])
    n = len(op["pars"])
    e = {"pars": np.array(op["pars"], dtype=float), "init": r.randn(n, m.dimx) * .1,
         "resid": r.randn(n, len(m.data) - 1, len(m.shocks)) * .5}
    hd, means = m.nhd(e, linear=op.get("linear", False), **(op.get("lk") or {}))
    return [h.values for h in hd] + [means.values]


def op_gfevd(st, op):
    m = st.mod
    r = np_seeded(op["seed"])
    n, T = len(op["pars"]), 3
    e = {"pars": np.array(op["pars"], dtype=float), "means": r.randn(n, T + 1, m.dimx) * .1,
         "resid": r.randn(n, T, len(m.shocks)) * .5}
    if op.get("flat"):
        # one series, with the parameters of each period
        e = {"pars": e["pars"][:1].repeat(T, axis=0), "means": e["means"][0], "resid": e["resid"][0]}
    return m.gfevd(e, horizon=op["h"], nsamples=op["ns"], seed=op["seed"], verbose=False).values


def op_misc(st, op):
    """small questions"""
    m = st.mod
    w = op["what"]
    if w == "mask":
        return m.mask.values
    if w == "shock2state":
        return m.shock2state((m.shocks[op["i"] % len(m.shocks)], op["x"]))
    if w == "vix":
        return m.vix(list(m.vv)[::-1][:3])
    if w == "oix":
        return m.oix(m.observables[::-1])
    if w == "obs_cov":
        return m.create_obs_cov(op["x"])
    if w == "p_init":
        return m.get_p_init_lyapunov(np.diag(np.arange(len(m.shocks)) + 1.))
    if w == "eps_lin":
        r = np_seeded(op["i"])
        if m.filter.name == "KalmanFilter":
            m.run_filter(smoother=False)
            return m.get_eps_lin(r.randn(m.dimx), r.randn(m.dimx))
        n = m.dimq
        return m.get_eps_lin(r.randn(n), r.randn(n - len(m.shocks)))
    if w == "dims":
        return [m.dimx, m.dimp, m.dimq, m.dimeps, m.neps, m.nobs, len(m.par_fix)]
    raise core.HarnessError(w)


def op_get_ll(st, op):
    s = np.random.get_state()
    np.random.seed(op["seed"])
    try:
        return st.mod.get_ll(seed=op["seed"])
    finally:
        np.random.set_state(s)


def op_run_filter(st, op):
    s = np.random.get_state()
    np.random.seed(op["seed"])
    try:
        kw = {}
        if op.get("init_cov"):
            n = st.mod.dimq - st.mod.dimeps if getattr(st.mod.filter, "reduced_form", False) else st.mod.dimx
            kw["init_cov"] = np.eye(n) * op["init_cov"]
        return st.mod.run_filter(seed=op["seed"], smoother=op.get("smoother", True), verbose=False, **kw)
    finally:
        np.random.set_state(s)


def op_prior_sampler(st, op):
    return st.mod.prior_sampler(op["n"], seed=op["seed"], check_likelihood=op.get("check", False),
                                try_parameter=op.get("try", True), verbose=2)


def op_get_prior(st, op):
    return st.mod.get_par("prior", nsamples=op["n"], seed=op["seed"], full=op.get("full", True), verbose=2)


def op_extract(st, op):
    kw = dict(seed=op.get("seed", 0), nsamples=op.get("nsamples", 1), verbose=False)
    if op.get("pars") is not None:
        kw["sample"] = [np.array(p) for p in op["pars"]]
        if op.get("other"):
            names = [str(p) for p in st.mod.parameters]
            full = []
            for p in kw["sample"]:
                v = np.array(st.mod.par_fix, dtype=float)
                v[st.mod.prior_arg] = p
                for k, x in op["other"].items():
                    v[names.index(k)] = x
                full.append(v)
            kw["sample"] = full
        if op.get("single"):
            kw["sample"] = kw["sample"][0]
    if op.get("init_cov"):
        kw["init_cov"] = np.eye(st.mod.dimx) * op["init_cov"]
    kw.update(op.get("lk") or {})
    r = st.mod.extract(**kw)
    return [np.array([np.array(x, dtype=float) for x in r[q]]) for q in ("pars", "init", "resid", "flags")]


def op_mcmc(st, op):
    p0 = np.array(op["p0"])
    mv = None
    if op.get("moves") == "de":
        import emcee
        mv = emcee.moves.DEMove()
    be = False if op.get("backend") is None else os.path.join(st.dir, op["backend"])
    return st.mod.mcmc(p0, nsteps=op["nsteps"], tune=op.get("tune", 1), moves=mv, backend=be, seed=op.get("seed"), verbose=False,
                       temp=op.get("temp", False))


def op_save(st, op):
    return st.mod.save(filename=os.path.join(st.dir, "saved_meta.npz"), verbose=False)


def op_reprep(st, op):
    return world.prep(st.mod, st.setup)


def op_pool(st, op):
    return st.mod.create_pool(op["n"])


def op_rng(st, op):
    if op.get("seed") is not None:
        np.random.seed(op["seed"])
    np.random.rand(op["n"])
    import random
    random.seed(op["n"])


def op_clock(st, op):
    st.clock.jump(op["dt"])
    st.ctx.count("fault:clock_jump")


def op_warnings(st, op):
    warnings.simplefilter(op["mode"])


def op_lprob(st, op):
    x = op["p"] if not op["sampler"] else world.to_sampler(st.setup["fam"], op["p"])
    return float(st.mod.lprob(np.array(x, dtype=float), verbose=op.get("verbose", False), **op.get("kw", {})))


def op_other_lprob(st, op):
    s, m = _other(st, op)
    return float(m.lprob(np.array(FAMS[s["fam"]]["mean"]), verbose=False, use_prior_transform=False))


def op_other_read(st, op):
    s, m = _other(st, op)
    world.prep(m, s)


def op_other_irfs(st, op):
    s, m = _other(st, op)
    f = FAMS[s["fam"]]
    return m.irfs((f["shocks"][0], 1.5, 1), pars=[np.array(f["mean"])] * 2, T=4, verbose=False)


def op_other_prior(st, op):
    s, m = _other(st, op)
    return m.prior_sampler(2, seed=op.get("seed", 1), check_likelihood=True, verbose=2)


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}


# ---------------------------------------------------------------- generation

def gen_fault(rng, kinds=("interrupt", "memory", "badfilter")):
    k = rng.choice(kinds)
    if k in EXC:
        return {"kind": k, "site": round(rng.random(), 4), "occ": round(rng.random(), 4)}
    if k == "badfilter":
        return {"kind": k, "how": rng.choice(faults.BadFilter.KINDS)}
    return {"kind": "pool", "at": rng.randrange(3)}


def gen_shocks(rng, fam):
    names = FAMS[fam]["shocks"]
    out = [[rng.choice(names), round(rng.choice([-1, 1, 1]) * rng.uniform(.5, 4), 3), rng.choice([0, 1, 1, 2])]]
    if rng.random() < .3:
        out.append([rng.choice(names), round(rng.uniform(-2, 2), 3), rng.choice([1, 2, 3])])
    return out


def gen_irf_extras(rng, op):
    r = rng.random()
    if r < .12:
        op["form"] = rng.choice(["tuple", "pair", "name", "names"])
    if rng.random() < .2:
        op["state"] = rng.randrange(100)
    r = rng.random()
    if r < (.5 if op.get("lk") else .2) and not op.get("linear"):
        op["set_k"] = rng.choice([None, 1, 2, 3, 6, [0, 2], [1, 2], [2, 1], [2, 9]])
    if rng.random() < .15:
        op["force"] = rng.random() < .5
    if rng.random() < .1:
        op["verbose"] = rng.choice([1, 2, 3])


def gen_sim_extras(rng, op):
    op["scale"] = rng.choice([.3, .3, 1.])
    if rng.random() < .3:
        op["mask"] = [rng.randrange(2), rng.choice([0.0, .5]), rng.choice([0, 2])]
        op["mask_frame"] = rng.random() < .5
        op["add"] = rng.random() < .3
    if rng.random() < .15:
        op["linear"] = True
    r = rng.random()
    if r < .2:
        op["direct"] = True
    elif r < .3:
        op["other_resid"] = True
    if rng.random() < .2:
        op["lk"] = dict(zip(("l_max", "k_max"), rng.choice([(2, 3), (2, 8), (3, 16), (4, 10)])))
    if rng.random() < .1:
        op["verbose"] = rng.choice([1, 2])


def gen_noise(rng, setup, kinds):
    """one operation of the given kinds for the prepared model"""
    fam = setup["fam"]
    k = rng.choice(kinds)
    pt = lambda kind="ok": world.gen_point(rng, fam, kind)
    op = {"op": k}
    if k == "set_vec":
        op["p"] = pt(rng.choice(["ok", "ok", "wide", "indet"]))
        if rng.random() < .25:
            op["kw"] = {"l_max": rng.choice([2, 3, 4]), "k_max": rng.choice([5, 10, 16])}
        if rng.random() < .1:
            op.setdefault("kw", {})["verbose"] = rng.choice([1, 2])
    elif k == "set_full":
        op["p"] = pt(rng.choice(["ok", "ok", "wide", "indet"]))
        oth = FAMS[fam]["other"]
        op["other"] = {n: round(rng.uniform(*oth[n]), 4) for n in oth if rng.random() < .5}
        if rng.random() < .2:
            op["kw"] = {"l_max": rng.choice([2, 3, 4]), "k_max": rng.choice([5, 10, 16])}
    elif k == "set_name":
        f = FAMS[fam]
        if rng.random() < .5:
            op["name"] = rng.choice(sorted(f["other"]))
            op["val"] = round(rng.uniform(*f["other"][op["name"]]), 4)
            if rng.random() < .15:
                op["val"] = round(op["val"] * 1e-4, 10)
        else:
            i = rng.randrange(len(f["names"]))
            op["name"], op["val"] = f["names"][i], pt()[i]
    elif k == "set_lk":
        op["kw"] = dict(zip(("l_max", "k_max"), rng.choice([(2, 3), (2, 8), (3, 16), (4, 10)])))
        op["again"] = rng.random() < .5
    elif k == "set_named":
        op["what"] = rng.choice(["calib", "prior_mean", "init", "best"])
    elif k == "get":
        op["what"] = rng.choice(["calib", "prior_mean", "adj_prior_mean", "init", "best", None, FAMS[fam]["names"][0], "mode", "x_bar"])
        op["full"] = rng.random() < .5
        op["asdict"] = rng.random() < .3
        op["verbose"] = rng.random() < .1
    elif k == "get_vec":
        op["p"] = pt(rng.choice(["ok", "wide"]))
        op["whole"] = rng.random() < .5
        op["full"] = rng.random() < .5
        op["asdict"] = rng.random() < .3
        op["verbose"] = rng.random() < .1
    elif k == "bad_set":
        op["name"] = rng.choice(["no_such_parameter", "y", FAMS[fam]["names"][0].upper()])
    elif k in ("set_npar", "get_npar"):
        i = rng.randrange(len(FAMS[fam]["names"]))
        op["p"] = pt()
        op["whole"] = rng.random() < .4
        if k == "set_npar":
            op["name"], op["val"] = FAMS[fam]["names"][i], pt()[i]
            op["vv"] = rng.random() < .2
        else:
            op["what"] = rng.choice([None, FAMS[fam]["names"][i]])
    elif k == "get_cov":
        op["p"] = pt() if rng.random() < .6 else None
        op["whole"] = rng.random() < .4
    elif k == "irfs":
        op["shocks"] = gen_shocks(rng, fam)
        op["T"] = rng.choice([4, 8])
        op["linear"] = rng.random() < .15
        if rng.random() < .6:
            op["pars"] = [pt(rng.choice(["ok", "wide", "indet"])) for _ in range(rng.choice([1, 2, 3]))]
            op["batch"] = rng.random() < .7
            if rng.random() < .25:
                op["lk"] = dict(zip(("l_max", "k_max"), rng.choice([(2, 3), (2, 8), (3, 16), (4, 10)])))
        gen_irf_extras(rng, op)
    elif k == "simulate":
        op["pars"] = [pt() for _ in range(rng.choice([1, 2, 3]))]
        op["eps_seed"] = rng.randrange(100)
        gen_sim_extras(rng, op)
    elif k in ("nhd", "gfevd"):
        op["pars"] = [pt("safe") for _ in range(rng.choice([1, 2, 3]))]
        op["seed"] = rng.randrange(100)
        if k == "nhd":
            op["linear"] = rng.random() < .2
        else:
            op["h"], op["ns"] = rng.choice([1, 2]), rng.choice([1, 2])
            op["flat"] = rng.random() < .3
    elif k == "misc":
        op["what"] = rng.choice(["mask", "shock2state", "vix", "oix", "obs_cov", "p_init", "eps_lin", "dims"])
        op["i"], op["x"] = rng.randrange(9), round(rng.uniform(.1, 1), 3)
    elif k in ("t_func", "run_filter", "get_ll"):
        op["seed"] = rng.randrange(100)
        if k == "run_filter":
            op["smoother"] = rng.random() < .6
            if rng.random() < .25:
                op["init_cov"] = rng.choice([.1, 1.])
        if k == "t_func":
            r = rng.random()
            if r < .15:
                op["linear"] = True
            elif r < .3:
                op["set_k"] = rng.choice([0, 1, 2, [0, 1], [1, 2], [1, 0], [2, 3]])
            elif r < .4:
                op["noeps"] = True
            if rng.random() < .2:
                op["get_obs"] = True
            if rng.random() < .1:
                op["verbose"] = True
    elif k in ("traj", "k_map"):
        op["seed"] = rng.randrange(100)
        op["verbose"] = rng.random() < .1
        if rng.random() < .5:
            op["l"], op["k"] = rng.randrange(2), rng.choice([1, 2, 3])
    elif k == "obs":
        op["seed"] = rng.randrange(100)
        if rng.random() < .5:
            op["pars"] = [pt() for _ in range(2)]
        elif rng.random() < .3:
            op["covs"] = True
    elif k in ("prior_sampler", "get_prior"):
        op["n"] = rng.choice([1, 2, 4])
        op["seed"] = rng.randrange(100)
        op["check"] = rng.random() < .5
    elif k == "extract":
        op["pars"] = [pt() for _ in range(rng.choice([1, 2]))]
        op["seed"] = rng.randrange(10)
        r = rng.random()
        if r < .15:
            del op["pars"]
        elif r < .4 and FAMS[fam].get("other"):
            oth = FAMS[fam]["other"]
            op["other"] = {n: round(rng.uniform(*oth[n]), 4) for n in oth if rng.random() < .5}
        elif r < .5:
            op["single"] = True
        if rng.random() < .15:
            op["init_cov"] = rng.choice([.1, 1.])
        if rng.random() < .2 and not setup["linear"]:
            op["lk"] = rng.choice([{"l_max": 2, "k_max": 8}, {"l_max": 3, "k_max": 12}])
    elif k == "mcmc":
        op["p0"] = [pt() for _ in range(2 * len(FAMS[fam]["names"]))]
        op["nsteps"] = rng.choice([1, 2])
        op["moves"] = rng.choice([None, "de"])
        op["backend"] = rng.choice([None, "noise.h5"])
    elif k == "pool":
        op["n"] = rng.choice([1, 2, 3])
    elif k == "rng":
        op["n"] = rng.randrange(1, 50)
        op["seed"] = rng.choice([None, rng.randrange(1000)])
    elif k == "clock":
        op["dt"] = rng.choice([-1e6, 3600, 1e9, -5])
    elif k == "warnings":
        op["mode"] = rng.choice(["ignore", "error", "default", "always"])
    elif k.startswith("other_"):
        op["who"] = rng.choice("bc")
        ofam = {"b": fam, "c": {"m1": "m2", "m2": "m3", "m3": "m1"}[fam]}[op["who"]]
        op["setup"] = world.gen_setup(rng, fam=ofam, linear=setup["linear"] if rng.random() < .5 else None,
                                      ncores=setup["ncores"] if rng.random() < .7 else rng.choice([0, 2]), transform=False, seed=7)
    return op
