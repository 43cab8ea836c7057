"""C03: completed sampling steps survive crashes, interrupts and failures."""
import numpy as np

from .. import chain, core, world
from ..core import Violation, same

PROP = "C03"
WARM = {"kf", "enkf"}
QUICK, THOROUGH = 200, 4000
RULE = ("one run = a deployment that samples in several parts (new, resumed, appended) in one or more processes, which are killed or interrupted in an "
        "evaluation, while waiting for workers, in a report or at any line of the package; the storage file is compared with the record of completed "
        "steps after each part. Non-trivial: at least one fault fired and at least one completed step was there to be lost; distinct by event log.")


def generate(rng, i, tier):
    plan, p0, nw = chain.gen_base(rng)
    out = []
    pf = rng.choice([.3, .6, .9])
    for j in range(rng.randrange(2, 5 if tier == "quick" else 8)):
        how = "new" if j == 0 else rng.choices(["resume", "append", "new", "bad", "side", "read"], [6, 3, 1, 2, 2, 2])[0]
        n = rng.choice([1, 2, 3, 4])
        part = {"id": j, "how": how, "n": n, "p0": p0, "ncores": rng.choice([0, 0, 2, 3]), "newproc": rng.random() < .5,
                "boot": rng.choice(["read", "load"])}
        if how == "append":
            part["p0"] = [world.gen_point(rng, plan["setup"]["fam"], "safe") for _ in range(nw)]
        if how == "bad":
            part["crowd"] = rng.random() < .4
        if how == "side":
            part["what"] = rng.choice(["memory", "elsewhere", "model", "save", "prep"])
        if how == "read":
            part["what"] = rng.choice(["read", "read_more"])
        if how not in ("bad", "side", "read") and rng.random() < pf:
            part["fault"] = chain.gen_fault(rng, n, nw)
        chain.gen_manner(rng, part)
        if rng.random() < .2:
            part["touch"] = world.gen_point(rng, plan["setup"]["fam"], "safe")
        out.append(part)
    plan["ops"] = out
    return plan


def eq(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def check_part(ctx, h):
    p, out, acks, before, after = h["part"], h["out"], h["acks"], h["before"], h["after"]
    ctx.op = {k: p[k] for k in ("id", "how", "n", "ncores", "fault") if k in p}
    if h["damaged"]:
        raise Violation("damaged", "after a part ended by %s the storage file can not be read: %s" % (out, h["damaged"]))
    nb = before["n"] if before is not None else 0
    na = after["n"] if after is not None else 0
    if h["how"] in ("side", "read"):
        if out[0] == "error":
            raise Violation("error", "%s raised %s" % (p["what"], out[1]))
        if na != nb or (nb and not (eq(after["chain"], before["chain"]) and eq(after["logp"], before["logp"]))):
            raise Violation("altered", "other work (%s) changed the stored chain from %d to %d steps" % (p["what"], nb, na))
        if h["how"] == "read" and out[1] is not None and nb:
            ch, lp, flat = out[1]
            want = before["chain"] if not h["transform"] else world.from_sampler(h["transform"], before["chain"])
            ctx.count("check:read_in_between")
            if ch.shape != want.shape or not same(ch, want, 1e-9, 1e-12) or not eq(lp, before["logp"]) or not same(flat, ch.reshape(-1, ch.shape[-1])):
                raise Violation("read-back", "the model reads %s which is not what is stored (%s)" % (ch.shape, want.shape))
        ctx.count("check:work_beside")
        return
    if h["how"] == "bad":
        if out[0] == "refused" or nb:
            if before is not None and nb and (na != nb or not eq(after["chain"], before["chain"])):
                raise Violation("bad-call", "a call without initial ensemble (%s) changed the stored chain from %d to %d steps" % (out, nb, na))
        ctx.count("check:refused_call")
        return
    if out[0] == "error" and not p.get("fault"):
        raise Violation("error", "sampling raised %s" % (out[1],))
    if h["how"] == "new":
        if not acks:
            if nb and na == nb and eq(before["chain"], after["chain"]):
                return
            if na > 1:
                raise Violation("content", "%d steps stored, none has been completed" % na)
            return
        nb = 0
    else:
        if na < nb:
            raise Violation("lost", "%s left %d of %d stored steps" % (h["how"], na, nb))
        ctx.count("check:stored_steps", nb)
        if not eq(after["chain"][:nb], before["chain"]) or not eq(after["logp"][:nb], before["logp"]):
            raise Violation("altered", "%s altered steps that were stored before" % h["how"])
    if na < nb + len(acks):
        raise Violation("lost", "%d steps had been completed, %d are stored" % (nb + len(acks), na))
    if na > nb + len(acks) + 1:
        raise Violation("content", "%d steps had been completed, but %d are stored" % (nb + len(acks), na))
    if out[0] == "ok" and not (na == nb + p["n"] and len(acks) == p["n"]):
        raise Violation("count", "%d steps requested, %d added" % (p["n"], na - nb))
    for k, (x, lp) in enumerate(acks):
        ctx.count("check:completed_steps")
        if not eq(after["chain"][nb + k], x) or not eq(after["logp"][nb + k], lp):
            raise Violation("altered", "completed step %d is not what is stored" % (nb + k))


def execute(plan, ctx):
    d, hist = chain.drive(plan, ctx)
    for h in hist:
        h["transform"] = plan["setup"]["fam"] if plan["setup"]["transform"] else None
        check_part(ctx, h)
    last = hist[-1]["after"]
    if last is not None and last["n"]:
        ctx.op = "read back"
        ch, lp = ctx.fresh(chain.read_back, plan, d)
        want = world.from_sampler(plan["setup"]["fam"], last["chain"]) if plan["setup"]["transform"] else last["chain"]
        ctx.count("check:read_back")
        if ch.shape != want.shape or not same(ch, want, 1e-9, 1e-12) or not eq(lp, last["logp"]):
            raise Violation("read-back", "a new process reads %s steps which are not the %s stored ones" % (len(ch), last["n"]))


def nontrivial(stats):
    return any(k.startswith("fault:") and k != "fault:out_of_order_completion" for k in stats) and stats.get("check:completed_steps", 0) >= 1
