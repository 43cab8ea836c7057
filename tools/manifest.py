#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed checks"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Seeded search, not proof: every explored schedule, history and fault sequence is checked against {oracle}. Trusts the process model "
        "(Linux fork, no power loss), numpy/emcee/HDF5, and a relative tolerance of 1e-6 for recomputed numbers.")
CLAIMS = {
    "C01": "the first evaluation of a fresh process",
    "C02": "the serial result of each item from a fresh process, under simulated worker schedules",
    "C03": "the record of steps whose storage had completed, after simulated kills, interrupts and failures",
    "C04": "the chain of one uninterrupted run, and the last stored ensemble, after simulated kills and restarts",
    "C05": "the complete old or new content, at every simulated crash point and write failure",
    "C06": "the saved model, compared attribute by attribute and evaluation by evaluation in a new process",
    "C07": "the same seeded scenario in a clean environment",
    "C08": "a fresh process reading the same files",
    "C09": "posterior values recomputed one by one in fresh processes, with injected evaluation failures",
    "C10": "a freshly read model with the parameters a small session model predicts",
    "C11": "the batch without the failing items, with injected failures per item and attempt",
}
NA = {
    "C12": "pure function of model, parameters, state and shocks: no schedule, clock, fault or interleaving can influence it, so simulation adds nothing to input generation",
    "C13": "pure function of data and parameters; nothing to schedule or to fail (its independence of history and failures is C01)",
    "C14": "pure function of the text of the model file (caching and failed reads are C08)",
    "C15": "algebraic identity of pure functions of their input",
}


def main():
    have = [c for c in CLAIMS if os.path.exists(os.path.join(HERE, "sim", "props", c.lower() + ".py"))]
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import numpy, numba, emcee, h5py\"",
        "checks": [{
            "property": c,
            "quick_cmd": "python3 check.py %s --tier quick" % c,
            "thorough_cmd": "python3 check.py %s --tier thorough" % c,
            "technique": "deterministic simulation with fault injection (seeded search over histories, schedules and faults)",
            "level": "exploration",
            "level_note": NOTE.format(oracle=CLAIMS[c]),
        } for c in have],
        "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()] +
                          [{"property": c, "reason": "check under construction"} for c in CLAIMS if c not in have],
        "notes": "No hooks in /repo: the seams are the pool class below pathos, the clock, sys.monitoring line events, resource limits and the public API.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


sys.exit(main())
