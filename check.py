#!/usr/bin/env python3
"""Decide one property of /repo's current sources: check.py <ID> [--tier quick|thorough].

Exit 0: no violation (known findings are listed).  Exit 1: VIOLATION lines.
Exit 2: the analysis could not give an answer (sources missing, too little decided).
"""

import argparse
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

FINDINGS = os.path.join(HERE, "known_findings.txt")
FLOOR = 0.25


def known(pid):
    """finding: property=<id> rule=<rule> where=<regex> what=<regex> :: text"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) rule=<(.*?)> where=<(.*?)> what=<(.*?)> :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append({"rule": m.group(2), "where": re.compile(m.group(3)), "what": re.compile(m.group(4)), "text": m.group(5), "n": 0})
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--scenario", default=None, help="only scenarios whose name contains this")
    ap.add_argument("--repo", default=None)
    a = ap.parse_args()
    if a.repo:
        os.environ["VERIF_REPO"] = a.repo
    t0 = time.time()
    from sa import props
    from sa.harness import MissingAnchor
    from sa.interp import AnalysisError
    from sa.run import run_property

    pid = a.property
    if pid not in props.PROPS:
        print("unknown property", pid)
        return 2
    try:
        prog, res = run_property(pid, a.tier, a.scenario)
    except MissingAnchor as e:
        print("NO-ANSWER property=%s: the public entry point %s is missing" % (pid, e))
        return 2
    except (AnalysisError, SyntaxError) as e:
        print("NO-ANSWER property=%s: sources cannot be analysed: %s" % (pid, e))
        return 2
    missing = [r for r in res if "missing" in r]
    if missing:
        print("NO-ANSWER property=%s: entry points missing: %s" % (pid, sorted({r["missing"] for r in missing})))
        return 2
    fs = known(pid)
    ok = sum(r["ok"] for r in res)
    und = sum(v[1] for r in res for v in r["rules"].values())
    bad, hit = [], 0
    for r in res:
        for rule, where, msg in r["bad"]:
            for f in fs:
                if f["rule"] == rule and f["where"].search(where) and f["what"].search(msg):
                    f["n"] += 1
                    hit += 1
                    break
            else:
                bad.append((rule, where, msg, r["id"]))
    funcs = sorted({f for r in res for f in r["funcs"]})
    rules = {}
    for r in res:
        for k, v in r["rules"].items():
            q = rules.setdefault(k, [0, 0, 0])
            for i in range(3):
                q[i] += v[i]
    stopped = {}
    for r in res:
        for n, k in r["notes"].items():
            stopped[n] = stopped.get(n, 0) + k
    unknown = {}
    for r in res:
        for n, k in r["unknown"].items():
            unknown[n] = unknown.get(n, 0) + k
    uniq = []
    seen = set()
    for b in bad:
        k = (b[0], b[1], re.sub(r"\[[^\[\]]*\]$", "", b[2]))
        if k not in seen:
            seen.add(k)
            uniq.append(b)
    total = ok + und + len(bad) + hit
    wall = time.time() - t0
    if a.scenario is None:
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {
            "property": pid,
            "tier": a.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "other",
            "coverage": {
                "explanation": props.RULES.get(pid, "abstract interpretation of the package sources"),
                "scenarios": len(res),
                "cells": sum(r["cells"] for r in res),
                "obligations": total,
                "decided_holding": ok,
                "undecided": und,
                "violating": len(bad),
                "known_finding_obligations": hit,
                "functions_analysed": len(funcs),
                "functions": funcs,
                "obligations_by_rule": {k: {"holds": v[0], "undecided": v[1], "violated": v[2]} for k, v in sorted(rules.items())},
                "cells_given_up": stopped,
                "unmodelled_calls": dict(sorted(unknown.items(), key=lambda x: -x[1])[:40]),
                "undecided_examples": [list(u) + [r["id"]] for r in res for u in r["und"][:1]][:20],
                "scenario_names": [r["id"] for r in res][:400],
            },
            "assumptions": props.ASSUMPTIONS,
            "wall_s": round(wall, 2),
            "violations": len(uniq),
        }
        with open(os.path.join(d, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d cells, %d functions, %d obligations: %d hold, %d undecided, %d violated, %d known (%.1f s)"
          % (pid, a.tier, len(res), sum(r["cells"] for r in res), len(funcs), total, ok, und, len(bad), hit, wall))
    for n, k in sorted(stopped.items())[:5]:
        print("  given up: %s (%d)" % (n, k))
    for f in fs:
        if f["n"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["text"]))
    if uniq:
        path = os.path.join(HERE, "evidence", pid + ".violations.txt")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            for rule, where, msg, sid in uniq:
                f.write("rule: %s\nconstruct: %s\nviolation: %s\nreplay: python3 check.py %s --scenario '%s'\n\n" % (rule, where, msg, pid, sid))
        for rule, where, msg, sid in uniq[:8]:
            print("  %s | %s | %s" % (rule, where, msg))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if a.scenario is None and (total == 0 or ok + hit < FLOOR * total):
        print("NO-ANSWER property=%s: only %d of %d obligations decided" % (pid, ok + hit, total))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
