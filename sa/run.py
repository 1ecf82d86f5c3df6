"""Run the scenarios of one property in parallel and collect the verdicts."""

from __future__ import annotations

import multiprocessing as mp
import os
import sys
import time

from . import props
from .harness import MissingAnchor, Program
from .scen import run_scenario

_STATE = {}


def _work(i):
    sc = _STATE["scs"][i]
    try:
        return run_scenario(getattr(sc, "prog", None) or _STATE["prog"], sc)
    except MissingAnchor as e:
        return {"id": sc.id, "missing": str(e)}


def _job(i):
    return i, _work(i)


def _late(sc):
    return {"id": sc.id, "cells": 0, "ok": 0, "bad": [], "und": [("time", sc.id, "not analysed before the deadline")],
            "soft": 0, "rules": {"time": [0, 1, 0]}, "notes": {"deadline reached": 1}, "raised": {}, "unknown": {},
            "funcs": [], "wall": 0.0}


def run_property(pid, tier, only=None, jobs=None):
    sys.setrecursionlimit(20000)
    prog = Program()
    scs = list(props.PROPS[pid](prog, tier))
    if only:
        scs = [s for s in scs if only in s.id]
    _STATE.update(prog=prog, scs=scs)
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    if jobs == 1 or len(scs) == 1:
        res = [_work(i) for i in range(len(scs))]
    else:
        # Scenarios that are not finished at the deadline (or whose worker died) count as undecided.
        done = {}
        deadline = time.time() + float(os.environ.get("VERIF_DEADLINE", 660 if tier == "quick" else 780))
        with mp.get_context("fork").Pool(jobs) as pool:
            it = pool.imap_unordered(_job, range(len(scs)), chunksize=1)
            while len(done) < len(scs):
                try:
                    i, r = it.next(max(0.1, deadline - time.time()))
                except mp.TimeoutError:
                    break
                done[i] = r
            pool.terminate()
        res = [done[i] if i in done else _late(scs[i]) for i in range(len(scs))]
    return prog, res


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else "quick"
    only = argv[2] if len(argv) > 2 else None
    t = time.time()
    prog, res = run_property(pid, tier, only)
    tot = [0, 0, 0]
    for r in res:
        if "missing" in r:
            print("MISSING", r)
            continue
        nu = sum(v[1] for v in r["rules"].values())
        tot[0] += r["ok"]; tot[1] += nu; tot[2] += len(r["bad"])
        if os.environ.get("Q") and not nu and not r["bad"] and not r["notes"] and not r["raised"] and not r["unknown"]:
            continue
        print("%-60s cells %d ok %d und %d bad %d soft %d %.1fs %s %s" % (r["id"], r["cells"], r["ok"], nu, len(r["bad"]), r["soft"], r["wall"], r["notes"] or "", r["raised"] or ""))
        for b in r["bad"][:3]:
            print("      BAD", *b)
        for b in r["und"][:2]:
            print("      und", *b)
        if r["unknown"]:
            print("      unk", list(r["unknown"].items())[:3])
    print(pid, tot, "%.1fs" % (time.time() - t))


if __name__ == "__main__":
    main(sys.argv[1:])
