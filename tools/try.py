"""try.py PROP N SEED [FOCUS]: runs random cases of a profile and shows what is rejected."""
import sys, time, json
import profiles, vlib
prop, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
focus = sys.argv[4] if len(sys.argv) > 4 else prop
t = time.time()
cs = profiles.cases(prop, n, seed)
bins = vlib.build()
t1 = time.time()
res = {k: vlib.run_cases(b, cs, k) for k, b in bins.items()}
lines = vlib.traces_of(cs, res)
t2 = time.time()
rej, states, gen = vlib.validate(lines, focus, "try")
print(prop, "cases", n, "traces", len(lines), "states", states, "gen/build %.1f run %.1f tlc %.1f" % (t1 - t, t2 - t1, time.time() - t2), "REJECTED", len(rej))
for (i, prof, ln, line), l, why in rej[:int(sys.argv[5]) if len(sys.argv) > 5 else 3]:
    evs = json.loads(line)["evs"]
    print("  case", i, prof, "event", l, why)
    print("   ", json.dumps(evs[l - 1])[:1500])
    for e in evs[:l - 1]:
        print("      before:", json.dumps(e)[:300])
