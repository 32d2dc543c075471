#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": p["id"],
           "quick_cmd": "python3 tools/check.py %s" % p["id"],
           "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % p["id"],
           "technique": "TLA+ specification checked with TLC; traces of the real code (model-generated and random inputs) validated against it",
           "level": "model_checking",
           "level_note": "the specification's own laws are checked exhaustively within bounds; the code is bound to it by replaying the inputs TLC enumerates, and seeded random ones, and having TLC judge every result"} for p in props]
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'tools'); import vlib; vlib.build()\"",
           "checks": checks, "not_applicable": [],
           "notes": "No hooks: every property is observed through the public API. Checks exit 2 when they cannot decide."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
