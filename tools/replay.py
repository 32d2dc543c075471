#!/usr/bin/env python3
"""replay.py FILE: runs the calls of a replay file again and judges them."""
import json
import sys

import vlib

x = json.load(open(sys.argv[1]))
bins = vlib.build()
res = {k: vlib.run_cases(b, [x["ops"]], "replay-" + k, gb=12) for k, b in bins.items()}
lines = vlib.traces_of([x["ops"]], res)
rej, _, _ = vlib.validate(lines, x["property"], "replay")
for (i, prof, n, line), l, why in rej:
    print("rejected (%s build), call %d: %s" % (prof, l, why))
    print(json.dumps(json.loads(line)["evs"][l - 1])[:4000])
print("VIOLATION property=%s replay=%s" % (x["property"], sys.argv[1]) if rej else "every call is allowed")
sys.exit(1 if rej else 0)
