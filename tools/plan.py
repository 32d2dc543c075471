"""What the check of each property runs: models to explore, random cases, sizes."""
import json
import os

import bigcases
import models
import vlib
from vlib import VERIF

ASSUMPTIONS = [
    "the specification in specs/*.tla states the intended behaviour; the harness only executes calls and reports results",
    "well-formed UTF-8 strings, documents below 2 GiB, keys pushed in key order when key_sorted is set",
    "number arithmetic of decimal-rs and JSON parsing of serde_json are exercised through yason, not verified on their own",
]

QUICK, THOROUGH = 1500, 12000
RANDOM = {"P04": 1000, "P08": 750, "P24": 2400}
THOROUGH_RANDOM = {"P08": 4500}      # deep documents are costly


BIG = {"P%02d" % i for i in range(1, 24)} - {"P02", "P08", "P14"}


class Job:
    def __init__(self, prop, tier):
        self.models = models.catalogue(prop, tier)
        self.random = RANDOM.get(prop, QUICK) if tier == "quick" else THOROUGH_RANDOM.get(prop, THOROUGH * RANDOM.get(prop, QUICK) // QUICK)
        self.long = 12 if tier == "quick" else 80
        self.deep = 36 if tier == "quick" else 300
        self.needle = 250 if tier == "quick" else 4000
        self.tier, self.prop = tier, prop

    def big(self, seed):
        """(large documents, documents at the limit of string length)"""
        return bigcases.cases(self.prop, self.tier, seed) if self.prop in BIG else ([], [])


def job(prop, tier):
    return Job(prop, tier)


def B(s):
    return list(s.encode())


def check_findings(prop, bins):
    """Runs the inputs of the known findings; (lines to print, violations)."""
    lines, bad = [], []
    listed = [x.split("property=")[1].split(None, 2) for x in open(os.path.join(VERIF, "known_findings.txt")) if x.startswith("finding:")]
    for p, name, what in listed:
        if p != prop:
            continue
        if name == "long-path":
            case = [{"op": "parse", "reg": 0, "text": B("null"), "via": "own", "pre": [], "cap": 0},
                    {"op": "exists", "reg": 0, "pos": [], "path": B("$" + "[0]" * 100000)}]
            for k, b in bins.items():
                res = [json.loads(x) for x in vlib.run_cases(b, [case], "finding-" + k)[0]]
                if "crash" in res[-1]:
                    lines.append("KNOWN-FINDING: property=%s %s" % (p, what.strip()))
                elif res[-1] != {"ok": True, "v": True}:
                    bad.append((k, case, res))
    return sorted(set(lines)), bad
