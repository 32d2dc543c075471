#!/usr/bin/env python3
"""check.py Pxx: decides one property for the library in /repo's working tree.

exit 0: it held on everything explored; exit 1: a line VIOLATION property=Pxx replay=<file>; exit 2: the check itself failed.
"""
import json
import os
import sys
import time
import traceback

import bigcases
import plan
import profiles
import vlib
from vlib import VERIF, WORK, ToolError, log

LEVEL = "model_checking"


def save_replay(prop, tag, ops, build, evs, l, why):
    d = os.path.join(WORK, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, tag))
    with open(path, "w") as f:
        json.dump({"property": prop, "build": build, "rejected_call": l, "why": why, "call": evs[l - 1] if 0 < l <= len(evs) else None, "ops": ops}, f)
    return path


def samples_of(cases, origin):
    out = []
    for k in sorted(set(origin)):
        sized = sorted((len(json.dumps(c)), i) for i, (c, o) in enumerate(zip(cases, origin)) if o == k)
        fits = [i for n, i in sized if n < 2000] or [sized[0][1]]
        if len(json.dumps(cases[fits[-1]])) < 20000:
            out.append({"from": k, "calls": cases[fits[-1]]})
    return out


def main(prop):
    t0 = time.time()
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    job = plan.job(prop, tier)
    models = [m.start(prop, tier) for m in job.models]        # TLC starts exploring while cargo builds
    bins = vlib.build()
    cases, origin = [], []
    for m in models:
        made = m.finish(seed)
        cases += made
        origin += [m.name] * len(made)
    made = profiles.cases(prop, job.random, seed)
    cases += made
    origin += ["random"] * len(made)
    made = profiles.long_cases(prop, job.long, seed)
    cases += made
    origin += ["long strings"] * len(made)
    made = profiles.needle_cases(prop, job.needle, seed)
    cases += made
    origin += ["needle"] * len(made)
    made = profiles.deep_cases(prop, job.deep, seed)
    cases += made
    origin += ["deep"] * len(made)
    made = bigcases.wide(prop, tier, seed)
    cases += made
    origin += ["wide"] * len(made)
    large, huge = job.big(seed)
    usual = len(cases) + len(large)
    cases += large + huge
    origin += ["large"] * len(large) + ["huge"] * len(huge)
    t1 = time.time()
    # Debug assertions hold for whole documents only.
    use = {k: b for k, b in bins.items() if prop != "P25" or k == "release"}
    results = {k: vlib.run_cases(b, cases[:usual], k) + vlib.run_cases(b, cases[usual:], k, gb=6, procs=4, patience=100) for k, b in use.items()}
    lines = vlib.traces_of(cases, results)
    t2 = time.time()
    rejects, states, generated = vlib.validate(lines, prop, prop)
    events = sum(x[2] for x in lines)
    t3 = time.time()
    violations = []
    for (i, build, _, line), l, why in sorted(rejects, key=lambda x: (x[0][2], len(x[0][3])))[:3]:
        violations.append(save_replay(prop, "%d-%s-%d" % (seed, tier, i), cases[i], build, json.loads(line)["evs"], l, why))
    known, bad = plan.check_findings(prop, bins)
    for build, ops, res in bad:
        evs = [dict(o, r=r) for o, r in zip(ops, res)]
        violations.append(save_replay(prop, "finding", ops, build, evs, len(evs), "not the outcome expected of the input of a finding"))
    for m in models:
        states += m.states
        generated += m.generated
    per = {o: origin.count(o) for o in set(origin)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "wall_s": round(time.time() - t0, 1),
          "violations": len(rejects) + len(bad),
          "coverage": {"states": states, "transitions": generated, "traces_validated_against_impl": len(lines),
                       "samples": samples_of(cases, origin), "calls_judged": events, "cases": per,
                       "models": [m.note() for m in models]},
          "assumptions": plan.ASSUMPTIONS}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %s cases, %d traces, %d calls, %d states; %.1f s (before %.1f, running %.1f, judging %.1f); %d rejected" %
        (prop, tier, per, len(lines), events, states, time.time() - t0, t1 - t0, t2 - t1, t3 - t2, len(rejects)))
    for line in known:
        print(line)
    for v in violations[:1]:
        print("VIOLATION property=%s replay=%s" % (prop, v))
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1])
    except ToolError as e:
        log("error:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
