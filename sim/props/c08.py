"""C08: models read from files are independent and reflect the files as they are now."""
import hashlib
import os
import re

import numpy as np

from .. import core, faults, ops, simpool, world
from ..core import Violation, describe, same
from ..world import FAMS
from . import c06

PROP = "C08"
WARM = {"kf", "dict"}
QUICK, THOROUGH = 150, 4500
RULE = ("one run = a process that reads model files in several directories while they are edited, broken, removed and repaired, with failed and interrupted reads, and uses, "
        "changes and wrecks the models it got; every read is compared with a fresh process reading the same files, every other live model with what it was before, and "
        "every compiled dictionary with a fresh compilation. Non-trivial: a read after an edit or fault was compared; distinct by event log.")
COMPONENTS = {
    "real": ["pydsge parser, gensys, model classes", "sympy, yaml", "file system of the sandbox (scratch directory)"],
    "simulated": ["edits of the model files, their time stamps", "interrupts and memory errors at any line of the package during a read", "processes"],
    "stub": [],
}

EQ = {"m1": [("rho_z * z(-1)", ".9*rho_z * z(-1)"), ("~ y = c\n", "~ y = c + .1*z\n"), ("x = nu*s", "x = nu*s*1.2"), ("dy + y_mean", "2*dy + y_mean"), ("r = rn", "r = 1.1*rn")],
      "m2": [("kappa*y + g", "kappa*y + .5*g"), ("rho_u*u(-1)", ".7*rho_u*u(-1)"), ("phi_y*y", "phi_y*y*2"), ("Pi + pi_mean", "Pi + 2*pi_mean")],
      "m3": [("+ .1*y(-2)", "+ .2*y(-2)"), ("theta_u*e_u(-1)", "theta_u*e_u(-2)"), ("+ kappa*y", "+ 1.5*kappa*y"), ("y + y_mean", "y - y_mean")]}
CAL = {"m1": ["sigma", "psi", "rho_z", "sig_r", "theta"], "m2": ["iota", "phi_y", "rho_g", "kappa"], "m3": ["rho", "theta_u", "kappa", "sig_r"]}
FUNCS = {"a": "def calc_nu(nub):\n    return nub / (1 - nub)\n", "b": "def calc_nu(nub):\n    return nub * 2 + 0\n", "c": "import math\ndef calc_nu(nub):\n    return .1 + nub\n",
         "bad": "def calc_nu(nub)\n    return nub\n", "noname": "def other(nub):\n    return nub\n"}
MUT = ["set_vec", "set_name", "prep", "prior", "par_fix", "fdict", "name", "lists", "data", "info", "path"]


def generate(rng, i, tier):
    fams = rng.sample(["m1", "m2", "m3"], rng.choice([1, 2, 2]))
    if "m1" not in fams and rng.random() < .6:
        fams[0] = "m1"
    dirs = ["a", "b", "c"][:rng.choice([1, 2, 3])]
    out = []
    weights = [8, 5, 4, 1, 1, 0] if rng.random() < .8 else [1, 0, 1, 9, 0, 4]
    for j in range(rng.randrange(6, 13 if tier == "quick" else 30)):
        fam, d = rng.choice(fams), rng.choice(dirs)
        k = rng.choices(["read", "edit", "use", "dict", "twin", "dictuse"], weights)[0]
        op = {"op": k, "fam": fam, "dir": d}
        if k in ("read", "twin"):
            op.update(spell=rng.choice(["abs", "abs", "rel", "dot"]), nocache=rng.random() < .15)
            if k == "read" and rng.random() < .2:
                op["fault"] = ops.gen_fault(rng, ("interrupt", "memory"))
        elif k == "edit":
            op["how"] = rng.choices(["cal", "eq", "prior", "name", "comment", "broken", "restore", "funcs", "remove", "copy"], [4, 3, 3, 1, 1, 2, 4, 4, 1, 3])[0]
            op["seed"] = rng.randrange(10 ** 6)
            op["mtime"] = rng.random() < .6
            if op["how"] == "funcs":
                op["fam"] = "m1" if "m1" in fams else fam
                op["to"] = rng.choice(["a", "b", "b", "c", "bad", "noname", None])
            if op["how"] == "copy":
                op["src"] = rng.choice(dirs)
        elif k == "use":
            op["how"] = rng.choice(MUT)
            op["which"] = rng.randrange(100)
            op["p"] = world.gen_point(rng, fam, "safe")
            op["seed"] = rng.randrange(100)
        elif k == "dictuse":
            op.update(how=rng.choice(["x_bar", "mat", "lists", "traj", "data", "sys", "hx"]), which=rng.randrange(100), seed=rng.randrange(100))
        else:
            op["how"] = rng.choice(["new", "same", "edit", "edit", "lk", "object"])
            op["force"] = rng.random() < .15
            op["seed"] = rng.randrange(100)
        op["id"] = j
        out.append(op)
    # whatever happened: the next reads are right
    for d in dirs:
        out.append({"op": "read", "fam": rng.choice(fams), "dir": d, "spell": "abs", "nocache": False, "id": len(out)})
    return {"fams": fams, "dirs": dirs, "ops": out}


def put(path, text, fixed):
    with open(path, "w") as f:
        f.write(text)
    if fixed:
        os.utime(path, (1.5e9, 1.5e9))


def base_text(fam):
    with open(os.path.join(core.VERIF, "models", fam + ".yaml")) as f:
        return f.read()


def edit(op, root, dirs):
    rng = core.rng_of(op["seed"])
    fam = op["fam"]
    y = os.path.join(root, op["dir"], fam + ".yaml")
    f = os.path.join(root, op["dir"], fam + "_funcs.py")
    how = op["how"]
    s = open(y).read() if os.path.exists(y) else base_text(fam)
    if how == "cal":
        p = rng.choice(CAL[fam])
        s = re.sub(r"(?m)^(\s+%s\s*:\s*)([\d.]+)(\s*)$" % p, lambda m: m.group(1) + "%.3f" % rng.uniform(.1, .6) + m.group(3), s)
    elif how == "eq":
        a, b = rng.choice(EQ[fam])
        s = s.replace(a, b, 1) if rng.random() < .7 else s.replace(b, a, 1)
    elif how == "prior":
        p = rng.choice(FAMS[fam]["names"])
        s = re.sub(r"(?m)^(\s+%s\s*:\s*\[.*,\s*)([\d.]+)(\])" % p, lambda m: m.group(1) + "%.2f" % rng.uniform(.05, .2) + m.group(3), s)
    elif how == "name":
        s = s.replace("name: '%s'" % fam, "name: 'other %s'" % fam)
    elif how == "comment":
        s += "\n# %d\n" % rng.randrange(100)
    elif how == "broken":
        s = rng.choice([lambda t: t.replace("equations:", "equation:"), lambda t: t.replace("calibration:", "calibration"), lambda t: t.replace("rho_u*u(-1)", "rho_nn*u(-1)").replace("rho_u * u(-1)", "rho_nn * u(-1)"),
                        lambda t: t[:len(t) // 2], lambda t: t.replace("(-1)", "(-1", 1)])(s)
    elif how == "restore":
        s = base_text(fam)
        if fam == "m1":
            put(f, open(os.path.join(core.VERIF, "models", "m1_funcs.py")).read(), op["mtime"])
    elif how == "funcs":
        if op["to"] is None:
            if os.path.exists(f):
                os.remove(f)
        else:
            put(f, FUNCS[op["to"]], op["mtime"])
        return
    elif how == "remove":
        if os.path.exists(y):
            os.remove(y)
        return
    elif how == "copy":
        for suf in (".yaml", "_funcs.py"):
            src, dst = os.path.join(root, op["src"], fam + suf), os.path.join(root, op["dir"], fam + suf)
            if src == dst:
                continue
            if os.path.exists(src):
                put(dst, open(src).read(), op["mtime"])
            elif suf == "_funcs.py" and os.path.exists(dst):
                os.remove(dst)
        return
    put(y, s, op["mtime"])


def describe_model(mod):
    par = np.array(mod.par, dtype=float) if hasattr(mod, "par") else None
    f = c06.facts(mod)
    f["path"] = str(mod.path)
    f["text"] = str(mod.fdict.get("yaml_raw"))
    f["functions"] = mod.fdict.get("ffile_raw")
    f["entries"] = sorted(mod.fdict)
    f["equations"] = [str(e) for e in mod["equations"]]
    f["current parameters"] = par
    f["prepared"] = hasattr(mod, "lprob")
    f["flags"] = [bool(mod.debug), getattr(mod, "pool", None) is not None]
    return f


def state_of(mod):
    """description of a live model, including one that was changed; taken in a forked copy"""
    sol = [np.array(x, dtype=float) for x in mod.hx] + [np.array(m, dtype=float) for m in mod.precalc_mat[:4]] if hasattr(mod, "hx") else None
    f = describe_model(mod)
    f["solution"] = sol
    if hasattr(mod, "lprob"):
        try:
            f["log-posterior"] = float(mod.lprob(np.array([v[-2] if isinstance(v[-2], float) else .5 for v in mod.prior.values()]), verbose=False))
        except Exception as e:
            f["log-posterior"] = type(e).__name__
    return f


def full_state(mod):
    try:
        return state_of(mod)
    except Exception as e:
        return {"broken": type(e).__name__}


def after_read(mod):
    """what the model computes from its calibration"""
    try:
        mod.set_par("calib", l_max=2, k_max=6)
        X = mod.irfs((mod.shocks[0], 1.5, 1), T=5, verbose=False)[0]
        return {"impulse responses": X.values if hasattr(X, "values") else X}
    except Exception as e:
        return {"impulse responses": type(e).__name__}


def path_of(op, root):
    if op["spell"] == "abs":
        return os.path.join(root, op["dir"], op["fam"] + ".yaml"), root
    if op["spell"] == "dot":
        return os.path.join(".", op["dir"], op["fam"] + ".yaml"), root
    return op["fam"] + ".yaml", os.path.join(root, op["dir"])


def do_read(op, root):
    from pydsge import DSGE
    p, cwd = path_of(op, root)
    os.chdir(cwd)
    try:
        return DSGE.read(p, nocache=op["nocache"])
    finally:
        os.chdir(root)


def fresh_read(op, root, key):
    core.quiet()
    try:
        mod = do_read(op, root)
    except Exception as e:
        return ("error", type(e).__name__)
    return ("ok", core.fork_call(describe_model, mod), core.fork_call(after_read, mod))


def disk_key(op, root):
    h = hashlib.sha1()
    for suf in (".yaml", "_funcs.py"):
        p = os.path.join(root, op["dir"], op["fam"] + suf)
        h.update(open(p, "rb").read() if os.path.exists(p) else b"-")
        h.update(b"|")
    return h.hexdigest()


def use(mod, op):
    how = op["how"]
    nd = len(mod.prior)
    p = (op["p"] + op["p"])[:nd]
    if how == "set_vec":
        mod.set_par(np.array(p), l_max=2, k_max=6)
    elif how == "set_name":
        mod.set_par(str(list(mod.prior)[0]), p[0], l_max=2, k_max=6)
    elif how == "prep":
        fam = mod.mod_name[-2:]
        mod.load_data(world.data_of({"fam": fam, "t0": op["seed"] % 4, "T": 8}))
        mod.prep_estim(linear=True, seed=op["seed"], ncores=0, verbose=False, dry_run=False)
        mod.filter.R = mod.create_obs_cov(.1 + op["seed"] / 1000)
    elif how == "prior":
        k = list(mod.prior)[op["seed"] % nd]
        mod.prior[k][-1] = .077
        if op["seed"] % 3 == 0:
            del mod.prior[list(mod.prior)[-1]]
    elif how == "par_fix":
        mod.par_fix[op["seed"] % len(mod.par_fix)] *= 1.05
    elif how == "fdict":
        mod.fdict["yaml_raw"] = "nothing"
        mod.fdict["mode_x"] = np.array(p)
        mod.fdict["extra"] = op["seed"]
    elif how == "name":
        mod.name = "changed"
        mod.description = "changed"
        mod.debug = True
    elif how == "path":
        mod.path = "/nonexistent"
    elif how == "lists":
        mod.shocks.reverse()
        mod.observables.reverse()
        mod["equations"].reverse()
        mod["calibration"].clear()
    elif how == "data":
        fam = mod.mod_name[-2:]
        mod.load_data(world.data_of({"fam": fam, "t0": 1, "T": 9}))
    elif how == "info":
        mod.get_par("calib")


def dict_of(fam, seed):
    mod = _plain(fam)
    mod.set_par("calib", l_max=2, k_max=6)
    d = world.mdict_of(mod)
    return d


def _plain(fam):
    from pydsge import DSGE
    return DSGE.read(os.path.join(core.VERIF, "models", fam + ".yaml"))


def edit_dict(d, seed):
    r = np.random.RandomState(seed)
    k = ["AA", "BB", "CC", "DD", "fb", "x_bar"][r.randint(6)]
    if k == "x_bar":
        d[k] = float(d[k] * r.uniform(.5, .9))
    else:
        a = d[k]
        nz = np.argwhere(a)
        a[tuple(nz[r.randint(len(nz))])] *= r.uniform(.9, 1.1)


def solution_of(mod):
    # entries of the other matrices that no search for durations reads are never written
    out = {"matrices": [np.array(m, dtype=float) for m in mod.precalc_mat[:4]], "x_bar": float(mod.x_bar), "horizon": [int(x) for x in mod.lks]}
    x = np.zeros(mod.dimx)
    x[: 3] = .1
    y, k, flag = core.fork_call(_tf, mod, x)
    out["transition"] = y
    return out


def _tf(mod, x):
    eps = np.full(mod.neps, -1.5)
    y, k, flag = mod.t_func(x, eps, return_k=True)[:3]
    return np.array(y), np.array(k), flag


def compile_dict(d, lk, force=False):
    from pydsge import gen_sys_from_dict
    return gen_sys_from_dict(d, l_max=lk[0], k_max=lk[1], parallel=False, force_processing=force, verbose=False)


def dict_state(mod):
    out = solution_of(mod)
    out["lists"] = [list(mod.shocks), [str(v) for v in mod.vv], list(mod.observables)]
    for k in ("sys", "hx"):
        v = getattr(mod, k, None)
        out[k] = None if v is None else [np.array(q, dtype=float) for q in v]
    out["data"] = np.array(mod.data) if hasattr(mod, "data") else None
    return out


def use_dict(mod, op):
    how = op["how"]
    if how == "x_bar":
        mod.x_bar = -.05 - op["seed"] / 1000
    elif how == "mat":
        mod.precalc_mat[op["seed"] % 4][:] *= .9
    elif how == "lists":
        mod.shocks.reverse()
    elif how == "sys":
        mod.sys[op["seed"] % 2][:] *= 1.1
    elif how == "hx":
        mod.hx[op["seed"] % 2][:] += .1
    elif how == "traj":
        x = np.zeros(mod.dimx)
        x[op["seed"] % 3] = .2
        for _ in range(3):
            x = mod.t_func(x, np.full(mod.neps, -.8))[0]
    elif how == "data":
        mod.load_data(np.random.RandomState(op["seed"]).randn(8, mod.nobs))


def fresh_dict(d, lk):
    core.quiet()
    try:
        return ("ok", solution_of(compile_dict(d, lk)))
    except core.HarnessError:
        raise
    except Exception as e:
        return ("error", type(e).__name__)


def fired(ctx):
    return sum(v for k, v in ctx.stats.items() if k.endswith("_inside_operation"))


def compare(want, have, what):
    for k in want:
        if not same(want[k], have.get(k)):
            raise Violation("differs", "%s: %s is %s instead of %s" % (what, k, describe(have.get(k)), describe(want[k])))


def execute(plan, ctx):
    simpool.install(ctx)
    root = os.path.join(ctx.dir, "r")
    for d in plan["dirs"]:
        os.makedirs(os.path.join(root, d))
        for fam in plan["fams"]:
            for suf in (".yaml", "_funcs.py"):
                src = os.path.join(core.VERIF, "models", fam + suf)
                if os.path.exists(src):
                    put(os.path.join(root, d, fam + suf), open(src).read(), True)
    os.chdir(root)
    live = []          # [model, what it was, label]
    dicts = {}
    compiled = []      # [model, its state]
    changed = False
    st = ops.State(ctx, {}, root)
    for op in plan["ops"]:
        ctx.op = op
        k = op["op"]
        me = None
        if k == "edit":
            edit(op, root, plan["dirs"])
            ctx.count("fault:files_" + op["how"])
            ctx.log("edit", op["id"], op["how"], disk_key(op, root))
            changed = True
            continue
        if k in ("read", "twin"):
            n = 2 if k == "twin" else 1
            for _ in range(n):
                want = ctx.ref(fresh_read, {q: op[q] for q in ("fam", "dir", "spell", "nocache")}, root, disk_key(op, root))
                before = fired(ctx)
                val, err = ops.with_fault(st, op, lambda: do_read(op, root))
                os.chdir(root)
                if err is not None:
                    struck = fired(ctx) > before
                    if not struck and (want[0] == "ok" or want[1] != type(err).__name__):
                        raise Violation("read", "reading raised %r, in a fresh process it gives %s" % (err, want[:1] if want[0] == "ok" else want))
                    ctx.count("fault:read_interrupted" if struck else "fault:read_failed")
                    ctx.log("read", op["id"], "error", type(err).__name__)
                    changed = True
                    continue
                if fired(ctx) > before:
                    # went on in spite of the fault: nothing is said about this model
                    ctx.log("read", op["id"], "survived")
                    continue
                if want[0] == "error":
                    raise Violation("read", "reading succeeds, in a fresh process it raises %s" % want[1])
                compare(want[1], core.fork_call(describe_model, val), "reading %s/%s.yaml" % (op["dir"], op["fam"]))
                compare(want[2], core.fork_call(after_read, val), "reading %s/%s.yaml" % (op["dir"], op["fam"]))
                ctx.count("check:reads")
                if changed:
                    ctx.count("check:reads_after_change")
                ctx.log("read", op["id"], "ok", core.digest(want[1]["all parameters"]))
                live.append([val, core.fork_call(full_state, val), "read %d" % op["id"]])
                if len(live) > 5:
                    live.pop(0)
                me = live[-1]
        elif k == "use" and live:
            me = live[op["which"] % len(live)]
            try:
                use(me[0], op)
                out = "ok"
            except Exception as e:
                out = type(e).__name__
            ctx.count("op:use_" + op["how"])
            ctx.log("use", op["id"], op["how"], out)
            me[1] = core.fork_call(full_state, me[0])
            changed = True
        elif k == "dict":
            fam = op["fam"]
            if fam not in dicts or op["how"] == "new":
                dicts[fam] = [core.fork_call(dict_of, fam, op["seed"]), (2, 6)]
            cur = dicts[fam]
            if op["how"] == "edit":
                edit_dict(cur[0], op["seed"])
            elif op["how"] == "lk":
                cur[1] = [(2, 6), (3, 8), (2, 4)][op["seed"] % 3]
            elif op["how"] == "object":
                cur[0] = {q: (np.array(v) if isinstance(v, np.ndarray) else v) for q, v in cur[0].items()}
            # a clean copy for the reference
            clean = {q: (np.array(v) if isinstance(v, np.ndarray) else v) for q, v in cur[0].items() if q not in ("l_max", "k_max")}
            want = ctx.fresh(fresh_dict, clean, cur[1])
            try:
                mod = compile_dict(cur[0], cur[1], op["force"])
                got = ("ok", solution_of(mod))
            except (core.HarnessError, Violation):
                raise
            except Exception as e:
                got = ("error", type(e).__name__)
            if got[0] != want[0]:
                raise Violation("dictionary", "compiling a dictionary: %s, in a fresh process %s" % (got[:2] if got[0] == "error" else "ok", want[:2] if want[0] == "error" else "ok"))
            if got[0] == "ok":
                compare(want[1], got[1], "compiling a dictionary")
                compiled.append([mod, core.fork_call(dict_state, mod)])
                if len(compiled) > 4:
                    compiled.pop(0)
            ctx.count("check:dictionaries")
            ctx.log("dict", op["id"], op["how"], got[0])
        elif k == "dictuse" and compiled:
            c = compiled[op["which"] % len(compiled)]
            try:
                use_dict(c[0], op)
                out = "ok"
            except Exception as e:
                out = type(e).__name__
            c[1] = core.fork_call(dict_state, c[0])
            ctx.count("op:dictuse_" + op["how"])
            ctx.log("dictuse", op["id"], op["how"], out)
        if k in ("dict", "dictuse"):
            for x in compiled:
                now = core.fork_call(dict_state, x[0])
                ctx.count("check:bystanders")
                for q in x[1]:
                    if not same(x[1][q], now.get(q)):
                        raise Violation("shared", "%s changed another compiled dictionary: its %s was %s and is %s" % (k, q, describe(x[1][q]), describe(now.get(q))))
        # nobody else noticed
        for x in live:
            if x is me:
                continue
            now = core.fork_call(full_state, x[0])
            ctx.count("check:bystanders")
            for q in x[1]:
                if not same(x[1][q], now.get(q)):
                    raise Violation("shared", "%s changed another model (%s): its %s was %s and is %s" % (k, x[2], q, describe(x[1][q]), describe(now.get(q))))


def nontrivial(stats):
    return stats.get("check:reads_after_change", 0) >= 1 or stats.get("check:dictionaries", 0) >= 2
