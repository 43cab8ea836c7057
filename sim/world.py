"""Models, data, points and operations shared by the simulated workloads (public API of the package only)."""
import os
import shutil

import numpy as np

from . import core, faults, simpool

FAMS = {
    # name: (prior names, means, spread, transform, shocks, non-estimated parameters and alternative values)
    "m1": dict(names=["theta", "phi_pi", "rho_u", "sig_u"], mean=[.62, 1.6, .7, .4], sd=[.08, .2, .1, .12],
               lo=[.05, .3, .02, .02], hi=[.98, 3., .98, 3.], tr=["logit", None, "logit", "log"],
               shocks=["e_z", "e_u", "e_r"], other={"sigma": (1.1, 2.0), "nub": (.05, .3), "elb_level": (.01, .2), "pi_mean": (.3, .7)},
               indet=[.62, .6, .7, .4]),
    "m2": dict(names=["h", "kappa", "rho", "sig_u"], mean=[.5, .1, .7, .3], sd=[.12, .03, .12, .1],
               lo=[.05, .01, .11, .02], hi=[.95, .4, .94, 3.], tr=["logit", "log", None, "log"],
               shocks=["e_u", "e_g"], other={"phi_pi": (1.2, 2.5), "iota": (.05, .5), "floor": (.0, .1), "r_mean": (.7, 1.1)},
               indet=None),
    "m3": dict(names=["kappa", "rho_u", "phi_pi"], mean=[.1, .6, 1.8], sd=[.03, .08, .2],
               lo=[.01, .05, .3], hi=[.4, .98, 3.], tr=["log", "logit", None],
               shocks=["e_u", "e_r"], other={"x_bar": (-.9, -.5), "theta_u": (.05, .5), "sig_r": (.05, .2), "rho": (.3, .8)},
               indet=None),
}


def gen_point(rng, fam, kind="ok"):
    f = FAMS[fam]
    if kind == "indet" and f["indet"]:
        p = list(f["indet"])
        p[0] = round(rng.uniform(.4, .8), 4)
        return p
    s = {"ok": 1.0, "wide": 3.0}.get(kind, 1.0)
    p = [round(min(max(rng.gauss(m, s * d), lo), hi), 5) for m, d, lo, hi in zip(f["mean"], f["sd"], f["lo"], f["hi"])]
    if kind == "safe" and "phi_pi" in f["names"]:
        i = f["names"].index("phi_pi")
        p[i] = max(p[i], 1.3)
    if kind == "outside":
        i = [j for j, t in enumerate(f["tr"]) if t][0]
        p[i] = -0.2
    return p


def to_sampler(fam, p):
    """parameter space -> sampling space of the prior transformation (for points inside the support)"""
    out = []
    for v, t in zip(p, FAMS[fam]["tr"]):
        out.append(float(np.log(v / (1 - v))) if t == "logit" else float(np.log(v)) if t == "log" else v)
    return out


def from_sampler(fam, p):
    p = np.array(p, dtype=float)
    out = p.copy()
    for i, t in enumerate(FAMS[fam]["tr"]):
        out[..., i] = 1 / (1 + np.exp(-p[..., i])) if t == "logit" else np.exp(p[..., i]) if t == "log" else p[..., i]
    return out


def gen_setup(rng, fam=None, linear=None, small=True, **over):
    fam = fam or rng.choice(["m1", "m1", "m2", "m3"])
    s = dict(fam=fam, T=rng.choice([8, 12, 16]), t0=rng.randrange(4),
             linear=rng.random() < .5 if linear is None else linear,
             N=rng.choice([12, 20]), seed=rng.randrange(5), transform=rng.random() < .4,
             ncores=rng.choice([0, 0, 2, 3]), R=rng.choice([.1, .2]), reduced=True, win=rng.choice([0, 0, 1, 2]))
    s.update(over)
    return s


def data_of(setup):
    import pandas as pd
    df = pd.read_csv(os.path.join(core.VERIF, "models", setup["fam"] + ".csv"), index_col="date", parse_dates=True)
    return df.iloc[setup["t0"]: setup["t0"] + setup["T"]]


def load_data(mod, setup):
    """the same data, as such or as a window of more"""
    import pandas as pd
    d = data_of(setup)
    if setup.get("win"):
        df = pd.read_csv(os.path.join(core.VERIF, "models", setup["fam"] + ".csv"), index_col="date", parse_dates=True)
        df["unrelated"] = 1.
        kw = {"start": d.index[0], "end": d.index[-1]}
        if setup["win"] == 2:
            kw = {k: v.strftime("%Y-%m-%d") for k, v in kw.items()}
        if setup["t0"] == 0:
            del kw["start"]
        mod.load_data(df, **kw)
    else:
        df = d.copy()
        mod.load_data(df)
    df.iloc[:, :] = 0.      # the frame is the caller's


def model_dir(ctx, name="w", fams=("m1", "m2", "m3")):
    d = os.path.join(ctx.dir, name)
    if not os.path.isdir(d):
        os.makedirs(d)
        for f in fams:
            for suf in (".yaml", "_funcs.py"):
                src = os.path.join(core.VERIF, "models", f + suf)
                if os.path.exists(src):
                    shutil.copy(src, d)
    return d


def prep(mod, setup, **over):
    kw = dict(N=setup["N"], linear=setup["linear"], seed=setup["seed"], use_prior_transform=setup["transform"],
              ncores=setup["ncores"], verbose=False, dry_run=setup.get("dry_run", False))
    if not setup["linear"]:
        kw["reduced_form"] = setup.get("reduced", True)
    kw.update(over)
    mod.prep_estim(**kw)
    if setup.get("R"):
        mod.filter.R = mod.create_obs_cov(setup["R"])


def make_model(setup, d=None, do_prep=True, **over):
    from pydsge import DSGE
    d = d or os.path.join(core.VERIF, "models")
    mod = DSGE.read(os.path.join(d, setup["fam"] + ".yaml"))
    load_data(mod, setup)
    if do_prep:
        prep(mod, setup, **over)
    return mod


def serial(setup):
    """the same setup without workers"""
    s = dict(setup)
    s["ncores"] = 0
    return s


def rstate():
    st = np.random.get_state()
    return (st[0], st[1].tobytes()) + tuple(st[2:])


def rand_state(mod, seed, scale=.3):
    r = np.random.RandomState(seed)
    return r.randn(mod.dimx) * scale


def rand_eps(mod, seed, T, scale=1.):
    r = np.random.RandomState(seed)
    cov = np.abs(np.diag(np.asarray(mod.QQ(mod.ppar), dtype=float)))
    return r.randn(T, len(mod.shocks)) * cov * scale


def warm(parts, fill=True):
    """compile what the runs need. Executed in forked children, filling the on-disk cache, then loaded here."""
    import pydsge  # noqa
    jobs = []
    if "enkf" in parts:
        jobs += [("enkf", f) for f in ("m1", "m2")]
    if "npas" in parts:
        jobs += [("npas", "m2")]
    if "tmat" in parts:
        jobs += [("tmat", "m1")]
    if "dict" in parts:
        jobs += [("dict", "m2")]
    jobs += [("kf", "m1")]
    pids = []
    for j in jobs if fill else []:
        pid = os.fork()
        if pid == 0:
            try:
                t0 = core.REAL_MONO()
                if os.environ.get("VERIF_DEBUG"):
                    msg = os.dup(2)
                core.quiet()
                _warm_job(*j)
                if os.environ.get("VERIF_DEBUG"):
                    os.write(msg, ("warm %s %s %.1fs\n" % (j[0], j[1], core.REAL_MONO() - t0)).encode())
            finally:
                os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    # load the compiled code into this process (without launching any threads)
    for j in jobs:
        if j[0] in ("kf", "enkf", "npas"):
            core_out = os.dup(1)
            err_out = os.dup(2)
            core.quiet()
            try:
                _warm_job(*j)
            finally:
                os.dup2(core_out, 1)
                os.dup2(err_out, 2)
                os.close(core_out)
                os.close(err_out)
    _forget()


def _forget():
    """drop what the warm-up left behind in caches of the package"""
    import pydsge.parser as pp
    import pydsge.gensys as gs
    for m, n in ((pp, "cached_models"), (gs, "processed_mdicts")):
        cache = getattr(m, n, None)
        if hasattr(cache, "clear"):
            cache.clear()
    np.random.seed(12345)


def _warm_job(kind, fam):
    try:
        s = dict(fam=fam, T=8, t0=0, linear=kind == "kf", N=12, seed=0, transform=False, ncores=0, R=.1,
                 reduced=kind != "npas")
        mod = make_model(s)
        mod.lprob(np.array(FAMS[fam]["mean"]))
        mod.run_filter(verbose=False)
        mod.set_par("prior_mean", l_max=3, k_max=16)
        mod.irfs((mod.shocks[0], 3, 1), T=4, verbose=False)
        mod.t_func(np.zeros(mod.dimx), linear=True)
        if kind == "npas":
            mod.extract(nsamples=1, verbose=False)
        if kind == "tmat":
            mod.traj(np.zeros(mod.dimq), verbose=False)
            mod.k_map(np.zeros(mod.dimq), verbose=False)
        if kind == "dict":
            from pydsge import gen_sys_from_dict
            gen_sys_from_dict(mdict_of(mod), l_max=3, k_max=16, verbose=False)
    except Exception as e:
        # the workloads will meet this again and judge it
        if os.environ.get("VERIF_DEBUG"):
            import traceback
            traceback.print_exc()


def mdict_of(mod, scale=1.0):
    """matrices of a compiled YAML model, as the input of gen_sys_from_dict"""
    fbc = mod.bb(mod.ppar).flatten().astype(float)
    n = len(mod.variables)
    return {
        "vars": np.array([v.name for v in mod.variables]), "shocks": list(mod.shocks), "const_var": str(mod.const_var),
        "observables": list(mod.observables), "x_bar": float(mod.x_bar),
        "AA": np.array(mod.AA(mod.ppar), dtype=float) * scale, "BB": np.array(mod.BB(mod.ppar), dtype=float) * scale,
        "CC": np.array(mod.CC(mod.ppar), dtype=float) * scale, "DD": -np.array(mod.PSI(mod.ppar), dtype=float) * scale,
        "fb": -fbc[:n], "fc": -fbc[n:], "fd": -mod.bb_PSI(mod.ppar).flatten().astype(float),
        "ZZ0": np.array(mod.ZZ0(mod.ppar), dtype=float), "ZZ1": np.array(mod.ZZ1(mod.ppar), dtype=float).squeeze(),
    }


# ---------------------------------------------------------------- references (executed in fresh processes)

def ref_lprobs(setup, evals):
    """posterior values, each evaluated first in its own copy of a freshly prepared model"""
    core.quiet()
    mod = make_model(serial(setup))
    return [core.fork_call(_one_lprob, mod, p, kw) for p, kw in evals]


def _one_lprob(mod, p, kw):
    return float(mod.lprob(np.array(p, dtype=float), verbose=False, **kw))
