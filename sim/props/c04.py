"""C04: a resumed sampling run continues exactly where the stored one ended."""
import os

import numpy as np

from .. import chain, core, world
from ..core import Violation, describe, same
from .c03 import eq

PROP = "C04"
WARM = {"kf", "enkf"}
QUICK, THOROUGH = 130, 4000
RULE = ("one run = sampling split into parts that end by themselves, by a kill or by an interrupt at a random point, each resumed in the same or a new "
        "process with another number of workers; the stored chain is compared with that of one uninterrupted serial run (moves without state), and "
        "every continuation with the one of a fresh serial process from a copy of the storage file. Non-trivial: at least one resumed part with "
        "stored steps before it was compared; distinct by event log.")


def generate(rng, i, tier):
    plan, p0, nw = chain.gen_base(rng, moves=("de", "de", "stretch", "stretch", "dime"))
    out = []
    pf = rng.choice([0, .4, .8])
    k = rng.randrange(2, 5 if tier == "quick" else 8)
    for j in range(k):
        n = rng.choice([1, 2, 3])
        part = {"id": j, "how": "new" if j == 0 else "resume", "n": n, "p0": p0, "ncores": rng.choice([0, 0, 2, 3]), "newproc": rng.random() < .5,
                "boot": rng.choice(["read", "load"]), "seed": plan["seed"]}
        if j and rng.random() < .3:
            part["seed"] = rng.randrange(1000)
        if rng.random() < pf and j < k - 1:
            part["fault"] = chain.gen_fault(rng, n, nw)
        if rng.random() < .3:
            part["touch"] = world.gen_point(rng, plan["setup"]["fam"], "safe")
        chain.gen_manner(rng, part)
        out.append(part)
    plan["ops"] = out
    return plan


def execute(plan, ctx):
    d, hist = chain.drive(plan, ctx)
    base, origin = None, None
    for h in hist:
        p, out, before, after = h["part"], h["out"], h["before"], h["after"]
        ctx.op = {k: p[k] for k in ("id", "how", "n", "ncores", "fault") if k in p}
        if h["damaged"]:
            raise Violation("damaged", "the storage file can not be read: %s" % h["damaged"])
        if out[0] == "error" and not p.get("fault"):
            raise Violation("error", "%s raised %s" % (h["how"], out[1]))
        na = after["n"] if after is not None else 0
        if h["how"] == "new":
            origin = p
        nb = before["n"] if before is not None and h["how"] == "resume" else 0
        if out[0] == "ok" and na != nb + p["n"]:
            raise Violation("count", "%s of %d steps added %d" % (h["how"], p["n"], na - nb))
        if na < nb:
            raise Violation("count", "resuming lost stored steps")
        if h["how"] == "resume" and na > nb:
            want = ctx.fresh(chain.ref_chain, plan, p, ctx.dir, h["before_file"])
            ctx.count("check:continuations")
            for key in ("chain", "logp"):
                if not same(after[key][:na], want[key][:na]):
                    t = [t for t in range(na) if t >= len(want[key]) or not same(after[key][t], want[key][t])][0]
                    raise Violation("continuation", "step %d of the resumed %s differs from the one a fresh serial process gets from the same file (%d steps stored before)" % (t, key, nb))
    if plan["moves"] in chain.STATELESS:
        last = hist[-1]["after"]
        if last is not None and last["n"] and origin is not None:
            want = ctx.fresh(chain.ref_chain, plan, dict(origin, how="new", n=int(last["n"]), fault=None), ctx.dir)
            ctx.op = "whole chain"
            ctx.count("check:whole_chains")
            if len([h for h in hist if h["how"] == "resume"]):
                ctx.count("check:whole_chains_resumed")
            for key in ("chain", "logp"):
                if not same(last[key], want[key]):
                    t = [t for t in range(last["n"]) if t >= len(want[key]) or not same(last[key][t], want[key][t])][0]
                    raise Violation("whole-chain", "step %d of %d of the %s differs from that of one uninterrupted run; parts: %s" % (
                        t, last["n"], key, [(h["how"], h["out"][0], h["after"]["n"] if h["after"] is not None else 0) for h in hist]))


def nontrivial(stats):
    return stats.get("check:continuations", 0) >= 1
