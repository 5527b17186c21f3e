#!/usr/bin/env python3
"""replay.py FILE: run a recorded violation again on /repo's working tree and show what TLC says. Exit 1 if it is still there."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

if not sys.argv[1].endswith(".json"):
    print(open(sys.argv[1]).read())
    sys.exit(1)
d = json.load(open(sys.argv[1]))
cases = []
for x in d["cases"]:
    c = core.Case(fork=x["fork"])
    c.lines, c.ev, c.hasobs = x["lines"], x["ev"], x["hasobs"]
    cases.append(c)
evs = core.run_cases(core.build(d["build"]), cases)
v = core.validate({i: e for i, e in enumerate(evs) if e is not None}, d["longonly"])
for i, (l, op, exp) in v.rejected.items():
    e = evs[i][l - 1] if l else evs[i][-1]
    print("history %d, call %d (%s) is not a step of the specification" % (i, l, op))
    print("\n".join("    " + x for x in cases[i].lines))
    print("observed: " + json.dumps(e))
    print("allowed:  " + exp)
print("%d histories accepted, %d rejected" % (v.accepted, len(v.rejected)))
sys.exit(1 if v.rejected else 0)
