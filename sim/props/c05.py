"""C05: saving is all-or-nothing."""
import os
import pickle
import shutil
import zipfile

import numpy as np

from .. import chain, core, faults, ops, simpool, world
from ..core import Violation

PROP = "C05"
WARM = {"kf"}
QUICK, THOROUGH = 200, 6000
RULE = ("one run = a deployment that saves metadata and results several times under several names, while the disk fills up at a random byte, a file operation "
        "fails, the power is lost, or the process is killed or interrupted at a random line of the package or of the libraries that write the file; after each save the file is "
        "read in a new process and compared with the complete old and new content. Non-trivial: a fault fired during a save; distinct by event log.")
COMPONENTS = {
    "real": ["pydsge save/save_rdict/load/load_rdict", "numpy savez, zipfile, zlib", "file system of the sandbox (scratch directory)"],
    "simulated": ["file size limit of the operating system (full disk, torn writes)", "os.replace/rename/fsync/remove/unlink failures", "process death at a chosen line", "loss of power: unsynced data are lost in part (directory operations are taken as durable and ordered)"],
    "stub": [],
}
LIBS = (os.path.dirname(os.path.realpath(np.lib.__file__)) + os.sep, os.path.realpath(zipfile.__file__), os.path.dirname(os.path.realpath(zipfile.__file__)) + os.sep + "zipfile")


def generate(rng, i, tier):
    setup = world.gen_setup(rng, fam=rng.choice(["m2", "m3"]), linear=True, ncores=0)
    targets = rng.sample([
        {"what": "meta", "name": None}, {"what": "meta", "name": "abs:m_one"}, {"what": "meta", "name": "abs:m_two.npz"}, {"what": "meta", "name": "abs:m.v1"},
        {"what": "rdict", "path": None, "suffix": ""}, {"what": "rdict", "path": None, "suffix": "_s"}, {"what": "rdict", "path": "res_a", "suffix": ""},
        {"what": "rdict", "path": "res_b.npz", "suffix": ""}, {"what": "rdict", "path": "abs:res_c", "suffix": "_x"}, {"what": "rdict", "path": "abs:res_d.npz", "suffix": ""},
        {"what": "rdict", "path": "res.v1", "suffix": ".b"}, {"what": "rdict", "path": "res.v1", "suffix": ""}, {"what": "rdict", "path": "res.v2.npz", "suffix": ".npz"},
    ], rng.choice([1, 2, 2, 3]))
    out = []
    for j in range(rng.randrange(2, 7 if tier == "quick" else 12)):
        op = {"id": j, "op": "save", "target": rng.randrange(len(targets)), "seed": rng.randrange(10 ** 6), "size": rng.choice([3, 200, 3000, 20000]),
              "newproc": rng.random() < .3}
        if rng.random() < .65:
            f = {"kind": rng.choice(["disk", "disk", "syscall", "line", "line", "power", "power"]), "how": rng.choice(["kill", "error"])}
            if f["kind"] == "disk":
                f["frac"] = round(rng.choice([0, rng.random(), rng.random(), rng.random(), .999]), 4)
            elif f["kind"] == "syscall":
                f["name"] = rng.choice(["replace", "rename", "fsync", "remove", "replace", "fsync"])
            else:
                if f["kind"] == "power":
                    f["when"] = rng.choice(["rename", "end", "line"])
                    f["seed"] = rng.randrange(10 ** 6)
                f["site"], f["occ"] = round(rng.random(), 4), round(rng.random(), 4)
                f["exc"] = rng.choice(["interrupt", "memory"])
            op["fault"] = f
        if rng.random() < .15:
            # several processes save under the same name at the same time
            op.pop("fault", None)
            op["op"] = "race"
            op["savers"] = [{"id": "%d.%d" % (j, q), "target": op["target"], "seed": rng.randrange(10 ** 6), "size": rng.choice([3, 200, 3000])} for q in range(rng.choice([2, 2, 3]))]
            op["turns"] = {"seed": rng.randrange(10 ** 6), "dist": rng.choice(["coarse", "mixed", "fine"]), "kill": rng.random() < .3}
        out.append(op)
    for t in range(len(targets)):
        out.append({"id": len(out), "op": "save", "target": t, "seed": rng.randrange(10 ** 6), "size": 10, "newproc": rng.random() < .5})
    return {"setup": setup, "targets": targets, "ops": out}


def file_of(t, d, name):
    if t["what"] == "meta":
        p = t["name"][4:] if t["name"] else name + "_meta"
    else:
        p = t["path"] or name + "_res"
        p = p[4:] if p.startswith("abs:") else p
        p = p[:-4] if p.endswith(".npz") else p
        p += t["suffix"]
    p = os.path.join(d, p)
    return p if p.endswith(".npz") else p + ".npz"


def content(op):
    r = np.random.RandomState(op["seed"])
    n = op["size"]
    return {"x": r.randn(n), "table": r.randint(0, 9, (3, 4)), "label": "save %d" % op["seed"], "nested": {"a": r.randn(2)}, "none": None}


def do_save(mod, t, op, d):
    if t["what"] == "meta":
        c = content(op)
        mod.description = c["label"]
        mod.tune = int(op["seed"] % 97)
        mod.fdict["notes_by_user"] = c["x"]
        kw = {"filename": os.path.join(d, t["name"][4:])} if t["name"] else {}
        mod.save(verbose=False, **kw)
    else:
        p = t["path"]
        if p and p.startswith("abs:"):
            p = os.path.join(d, p[4:])
        mod.save_rdict(content(op), path=p, suffix=t["suffix"], verbose=False)


def fresh_model(plan, d):
    return world.make_model(dict(plan["setup"], ncores=0), d)


def node(plan, todo, d, logfile):
    core.quiet()
    ctx = chain.DiskCtx(logfile)
    simpool.install(ctx)
    mod = fresh_model(plan, d)
    sizes = {}
    for op in todo:
        if op["op"] == "race":
            ctx._put(("start", op["id"]))
            ctx._put(("end", op["id"], race(mod, plan, op, d, ctx), [core.fork_call(look, file_of(x, d, plan["setup"]["fam"])) for x in plan["targets"]]))
            continue
        t = plan["targets"][op["target"]]
        f = op.get("fault")
        fn = lambda: do_save(mod, t, op, d)
        ctx._put(("start", op["id"]))
        try:
            if not f:
                fn()
            elif f["kind"] == "disk":
                size = core.fork_call(_size_of, mod, t, op, d, plan["setup"]["fam"])
                ctx.count("fault:disk_full_" + f["how"])
                with faults.DiskLimit(int(size * f["frac"]), crash=f["how"] == "kill"):
                    fn()
            elif f["kind"] == "syscall":
                sf = faults.SyscallFault(f["name"], 1, crash=f["how"] == "kill")
                sf.on_fire = lambda: ctx.count("fault:%s_%s" % (f["name"], f["how"]))
                with sf:
                    fn()
            elif f["kind"] == "power" and f["when"] != "line":
                pl = faults.PowerLoss(d, f["when"], core.rng_of(f["seed"]))
                pl.on_fire = lambda: ctx.count("fault:power_loss_" + f["when"])
                with pl:
                    fn()
                    pl.fire()
            else:
                bak = d + ".bak"
                shutil.copytree(d, bak)
                n = ops.line_of(fn, f["site"], f["occ"], files=(faults.PKG,) + LIBS)
                shutil.rmtree(d)
                os.rename(bak, d)
                if n is None:
                    fn()
                elif f["kind"] == "power":
                    pl = faults.PowerLoss(d, "line", core.rng_of(f["seed"]))

                    def down():
                        ctx.count("fault:power_loss_line")
                        pl.lose()

                    lf = faults.LineFault(n, KeyboardInterrupt, files=(faults.PKG,) + LIBS, crash=True)
                    lf.on_fire = down
                    with pl, lf:
                        fn()
                else:
                    lf = faults.LineFault(n, ops.EXC[f["exc"]], files=(faults.PKG,) + LIBS, crash=f["how"] == "kill")
                    lf.on_fire = lambda: ctx.count("fault:%s_at_line" % f["how"])
                    with lf:
                        fn()
            out = ("ok", None)
        except core.HarnessError:
            raise
        except BaseException as e:
            out = ("error", repr(e))
        # what another process sees now
        ctx._put(("end", op["id"], out, [core.fork_call(look, file_of(x, d, plan["setup"]["fam"])) for x in plan["targets"]]))


def race(mod, plan, op, d, ctx):
    """-> outcome of each saver, and what was in the file in between"""
    t = plan["targets"][op["target"]]
    path = file_of(t, d, plan["setup"]["fam"])
    rng = core.rng_of(op["turns"]["seed"])
    dist = op["turns"]["dist"]
    total = core.fork_call(_lines_of, mod, t, op, d)
    doomed = rng.randrange(len(op["savers"])) if op["turns"]["kill"] else None
    seen, trace = [], []

    def choose(alive, turn):
        i = rng.choice(alive)
        if i == doomed and rng.random() < .15:
            return i, None
        u = rng.random()
        return i, 1 + int(total * (u ** 2 if dist == "coarse" else u ** 4 if dist == "mixed" else u ** 8))

    def between(turn, i, n, outs):
        trace.append((i, n))
        done = sum(o is not None for o in outs)
        if len(seen) < 12 or outs[i] is not None:
            v = look(path)
            if not seen or seen[-1][0] != v or seen[-1][1] != done:
                seen.append((v, [k for k, o in enumerate(outs) if o is not None and o[0] == "ok"]))

    outs = faults.Turns([lambda s=s: do_save(mod, t, s, d) for s in op["savers"]], (faults.PKG,) + LIBS).run(choose, between)
    ctx.count("fault:saves_at_the_same_time")
    ctx.count("turns", len(trace))
    if any(o[0] == "died" for o in outs):
        ctx.count("fault:one_of_several_savers_killed")
    return ("race", outs, seen, core.digest(np.array([[i, -1 if n is None else n] for i, n in trace], dtype=float)))


def _lines_of(mod, t, op, d):
    w = d + ".size"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    mod.path = w
    lf = faults.LineFault(10 ** 9, files=(faults.PKG,) + LIBS)
    with lf:
        do_save(mod, t, op, w)
    shutil.rmtree(w)
    return lf.count


def _size_of(mod, t, op, d, fam):
    w = d + ".size"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    mod.path = w
    do_save(mod, t, op, w)
    n = os.path.getsize(file_of(t, w, fam))
    shutil.rmtree(w)
    return n


def look(path):
    """complete content of a saved file"""
    if not os.path.exists(path):
        return ("absent", None)
    try:
        with np.load(path, allow_pickle=True) as z:
            return ("ok", {k: dump(z[k]) if k in ("model_dump", "data") else simple(z[k]) for k in z.files})
    except Exception as e:
        return ("damaged", repr(e))


def dump(a):
    """what a pickled entry stands for: its bytes depend on the identity of strings in the process that wrote it"""
    a = np.asarray(a)
    if a.dtype.kind not in "SVO":
        return simple(a)
    x = a.item()
    if not isinstance(x, bytes):
        return simple(a)
    x = pickle.loads(x)
    if hasattr(x, "parameters") and hasattr(x, "variables"):
        return ("model", [str(v) for v in x.variables], [str(v) for v in x.parameters], [str(v) for v in x.shocks])
    if hasattr(x, "values") and hasattr(x, "columns"):
        return ("data", list(map(str, x.columns)), list(map(str, x.index)), np.asarray(x.values, dtype=float).tobytes())
    return ("other", type(x).__name__)


def simple(a):
    """comparable form of a stored entry"""
    a = np.asarray(a)
    if a.dtype.kind in "fiub":
        return ("num", a.shape, a.tobytes())
    if a.dtype.kind in "SU":
        return ("str", a.shape, repr(a.tolist())[:4000])
    out = []
    for x in a.ravel():
        if isinstance(x, dict):
            out.append(("dict", sorted((str(k), repr(v)) for k, v in x.items())))
        else:
            out.append(("obj", type(x).__name__, repr(x)[:500] if isinstance(x, (str, int, float, list, tuple, type(None))) else ""))
    return ("obj", a.shape, out)


def reference(plan, d):
    """content of every save when nothing fails"""
    core.quiet()
    w = os.path.join(d, "refsave")
    shutil.copytree(os.path.join(d, "w"), w)
    mod = fresh_model(plan, w)
    out = {}
    for op in [s for o in plan["ops"] for s in o.get("savers", [o])]:
        t = plan["targets"][op["target"]]
        do_save(mod, t, op, w)
        p = file_of(t, w, plan["setup"]["fam"])
        out[op["id"]] = core.fork_call(look, p)
        if os.path.exists(p):
            os.remove(p)
    shutil.rmtree(w)
    return out


def load_all(plan, d):
    """through the interface of the package"""
    core.quiet()
    from pydsge import DSGE
    out = []
    for t in plan["targets"]:
        p = file_of(t, d, plan["setup"]["fam"])
        if not os.path.exists(p):
            out.append(None)
            continue
        if t["what"] == "meta":
            mod = DSGE.load(p, verbose=False)
            out.append(str(mod.fdict["description"]))
        else:
            mod = fresh_model(plan, d)
            q = t["path"]
            if q and q.startswith("abs:"):
                q = os.path.join(d, q[4:])
            out.append(str(mod.load_rdict(q, suffix=t["suffix"])["label"]))
    return out


def execute(plan, ctx):
    d = world.model_dir(ctx, fams=(plan["setup"]["fam"],))
    want = ctx.fresh(reference, plan, ctx.dir)
    for i, w in want.items():
        if w[0] != "ok":
            raise Violation("undisturbed", "a save without any fault leaves a file that is %s" % (w,))
    possible = {t: [("absent", None, None)] for t in range(len(plan["targets"]))}
    todo = list(plan["ops"])
    nproc = 0
    while todo:
        sess = [todo[0]]
        for p in todo[1:]:
            if p.get("newproc"):
                break
            sess.append(p)
        logfile = os.path.join(ctx.dir, "node%d.log" % nproc)
        nproc += 1
        died = False
        try:
            ctx.fresh(node, plan, sess, d, logfile, may_die=True)
        except core.Died:
            died = True
        recs = chain.read_records(logfile)
        for r in recs:
            if r[0] == "count":
                ctx.count(r[1], r[2])
        done = 0
        shutil.rmtree(d + ".bak", ignore_errors=True)
        for op in sess:
            if not [r for r in recs if r[0] == "start" and r[1] == op["id"]]:
                break
            done += 1
            ctx.op = op
            end = [r for r in recs if r[0] == "end" and r[1] == op["id"]]
            t = op["target"]
            if op["op"] == "race":
                if not end:
                    raise Violation("died", "the process that watches several savers died")
                check_race(plan, op, end[0][2], end[0][3], want, possible, ctx)
                continue
            new = want[op["id"]]
            if end:
                out, views = end[0][2], end[0][3]
            else:
                if not op.get("fault"):
                    raise Violation("died", "the process died in a save without fault")
                out = ("died", None)
                views = [ctx.fresh(look, file_of(x, d, plan["setup"]["fam"])) for x in plan["targets"]]
            if out[0] == "ok":
                allowed = {t: [new + (op,)]}
            else:
                if not op.get("fault"):
                    raise Violation("error", "a save after the faults were gone raised %s" % (out[1],))
                allowed = {t: possible[t] + [new + (op,)]}
            for k, v in enumerate(views):
                ok = allowed.get(k, possible[k])
                hit = [a for a in ok if a[0] == v[0] and a[1] == v[1]]
                ctx.count("check:files")
                if not hit:
                    raise Violation("content", "target %s after a save that %s (%s): file is %s, which is neither the previous nor the new content; %s" % (
                        plan["targets"][k], out[0], out[1], v[0] if v[0] != "damaged" else v, diff(v, ok)))
                possible[k] = hit
            ctx.log(op["id"], out[0], [v[0] for v in views], hit[0][2]["id"] if hit[0][2] else None)
            ctx.count("check:saves")
            if out[0] == "ok":
                ctx.count("check:saves_done")
        todo = todo[done:]
        if not done:
            raise core.HarnessError("node did nothing")
    labels = ctx.fresh(load_all, plan, d)
    for t, lab in enumerate(labels):
        src = possible[t][0][2]
        exp = "save %d" % src["seed"] if src else None
        ctx.count("check:loads")
        if lab != exp:
            raise Violation("load", "loading %s gives the content %r instead of %r" % (plan["targets"][t], lab, exp))


def check_race(plan, op, res, views, want, possible, ctx):
    _, outs, seen, trace = res
    t = op["target"]
    for i, o in enumerate(outs):
        if o[0] == "error":
            raise Violation("error", "a save while another process saves under the same name raised %s" % (o[1],))
    news = [want[s["id"]] + (s,) for s in op["savers"]]
    for v, finished in seen + [(views[t], [i for i, o in enumerate(outs) if o[0] == "ok"])]:
        # a save that returned replaced what was there before
        ok = news + ([] if finished else possible[t])
        ctx.count("check:files")
        if not [a for a in ok if a[0] == v[0] and a[1] == v[1]]:
            raise Violation("race", "target %s while several processes save: file is %s, which is none of the complete contents; %s" % (plan["targets"][t], v[0] if v[0] != "damaged" else v, diff(v, ok)))
    for k, v in enumerate(views):
        ok = possible[k] if k != t else news + ([] if any(o[0] == "ok" for o in outs) else possible[t])
        possible[k] = [a for a in ok if a[0] == v[0] and a[1] == v[1]]
        if not possible[k]:
            raise Violation("race", "target %s after several processes saved: file is %s" % (plan["targets"][k], v[0] if v[0] != "damaged" else v))
    ctx.log(op["id"], "race", [o[0] for o in outs], len(seen), trace, possible[t][0][2]["id"] if possible[t][0][2] else None)
    ctx.count("check:races")


def diff(v, ok):
    if v[0] != "ok":
        return ""
    out = []
    for a in ok:
        if a[0] == "ok":
            out.append([k for k in set(v[1]) | set(a[1]) if v[1].get(k) != a[1].get(k)][:4])
    return "differing entries: %s" % out


def nontrivial(stats):
    return any(k.startswith("fault:") for k in stats) and stats.get("check:saves_done", 0) >= 1
