#!/usr/bin/env python3
"""check.py ID: decide one property of properties.jsonl on /repo's working tree.

1. build the driver from /repo (address and undefined-behaviour sanitizers);
2. check the design: TLC explores the bounded models registered for the property, invariants on;
3. replay behaviours generated by TLC from the specification, and randomly generated histories,
   into the real code, recording every call with everything observable of it;
4. let TLC decide whether each recorded history is a behaviour of the specification.

Exit 0: it held on everything explored. Exit 1 and a VIOLATION line: it does not. Exit 2: the check itself failed."""
import argparse, json, os, random, re, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, gen, models, props
from core import ToolError

THOROUGH_SECS = int(os.environ.get("VERIF_THOROUGH_SECS", "600"))


def readable(x):
    """byte sequences as text, for people"""
    if isinstance(x, list) and x and all(isinstance(b, int) and 0 <= b < 256 for b in x):
        return bytes(x).decode("latin1").encode("unicode_escape").decode() if all(b for b in x) and any(b >= 32 for b in x) else x
    if isinstance(x, list):
        return [readable(y) for y in x]
    if isinstance(x, dict):
        return {k: readable(v) for k, v in x.items() if k != "dv"}
    return x


def sample(evs, n=12):
    return [readable({k: v for k, v in e.items() if k != "obs"}) for e in evs[:n]]


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.big = tier == "thorough"
        self.states = self.trans = self.traces = self.events = self.cases = self.rounds = 0
        self.fault_runs = self.fault_nontrivial = 0
        self.samples, self.models, self.seen = [], [], set()
        self.violation = None
        self.known = []

    # ---------------------------------------------------------------- design
    def run_models(self):
        for m in models.for_property(self.pid, self.big):
            t = time.time()
            rc, out = m.run()
            if rc != 0:
                raise ToolError("the model %s does not check (%d):\n%s" % (m.cfg, rc, out[-5000:]))
            g, d = core.tlc_stats(out)
            if d < m.atleast:
                raise ToolError("the model %s has only %d states" % (m.cfg, d))
            self.states += d
            self.trans += g
            self.models.append({"model": m.cfg, "constants": m.const, "states": d, "transitions": g, "checks": m.what, "wall_s": round(time.time() - t, 1)})

    # ----------------------------------------------------------- conformance
    def batch(self, variant, longonly, cases, origin):
        """run, validate; returns True if a violation was found"""
        driver = core.build(variant)
        evs = core.run_cases(driver, cases, "c")
        v = core.validate({i: e for i, e in enumerate(evs) if e is not None}, longonly)
        self.states += v.states
        self.trans += v.generated
        self.traces += v.accepted
        self.events += v.events
        self.cases += len(cases)
        self.rounds += 1
        for c, e in zip(cases, evs):
            if e is None:
                continue
            for x in e:
                if x["o"] == "faults" and "obs" in x:
                    self.fault_runs += len(x["obs"]["r"])
                    self.fault_nontrivial += sum(1 for y in x["obs"]["r"] if y["ev"][:1] == [70])
            self.seen.add(hash("\n".join(c.lines)))
        if len(self.samples) < 4:
            rr = random.Random(self.seed)
            for c in rr.sample(range(len(cases)), min(2, len(cases))):
                if evs[c] is not None:
                    self.samples.append({"origin": origin, "build": variant, "calls": sample(evs[c])})
        if v.rejected:
            self.report(variant, longonly, cases, evs, v, driver)
        return bool(v.rejected)

    def report(self, variant, longonly, cases, evs, v, driver):
        # the smallest history first; it has to fail again, alone if possible, else with everything before it
        order = sorted(v.rejected, key=lambda i: sum(map(len, cases[i].lines)))
        for i in order[:3]:
            for _ in range(2):
                e1 = core.run_cases(driver, [cases[i]], "again")
                w = core.validate({0: e1[0]}, longonly, "again")
                if w.rejected:
                    return self.write(variant, longonly, [cases[i]], 0, e1[0], w.rejected[0])
        for _ in range(2):
            e2 = core.run_cases(driver, cases, "again")
            w = core.validate({i: e for i, e in enumerate(e2) if e is not None}, longonly, "again")
            both = [i for i in order if i in w.rejected]
            if both:
                i = both[0]
                return self.write(variant, longonly, cases, i, e2[i], w.rejected[i])
        i = order[0]
        raise ToolError("a rejected history was accepted when repeated: %s" % json.dumps(readable(evs[i]))[:3000])

    def write(self, variant, longonly, cases, i, evs, why):
        d = os.path.join(core.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, self.seed))
        l, op, exp = why
        at = evs[l - 1] if 0 < l <= len(evs) else evs[-1]
        json.dump({"property": self.pid, "build": variant, "longonly": longonly, "index": i,
                   "cases": [{"fork": c.fork, "lines": c.lines, "ev": c.ev, "hasobs": c.hasobs} for c in cases],
                   "rejected_event": l, "call": readable(at), "expected": exp[:20000], "history": readable(evs)}, open(path, "w"))
        self.violation = path
        print("property %s: call %d of the history is not a step of the specification" % (self.pid, l))
        print("  call and observation: " + json.dumps(readable(at))[:1500])
        print("  the specification:    " + re.sub(r"\s+", " ", exp)[:1500])
        print("  (see it again: python3 run/replay.py %s)" % path)

    def conformance(self):
        quick_rounds = props.ROUNDS.get(self.pid, 2)
        k = 0
        while True:
            r = props.R("%d/%s/%d" % (self.seed, self.pid, k))
            big = self.big and k > 0
            for variant, longonly, cases, origin in props.batches(self.pid, r, big, k):
                if self.batch(variant, longonly, cases, origin):
                    return
            k += 1
            if not self.big and k >= quick_rounds:
                return
            if self.big and time.time() - self.t0 > THOROUGH_SECS:
                return

    def generated(self):
        for name, variant, cases in models.behaviours(self.pid, self.seed, self.big):
            if self.batch(variant, False, cases, "TLC behaviour of " + name):
                return True
        return False

    # --------------------------------------------------------------- verdict
    def evidence(self):
        level = props.LEVEL.get(self.pid, "model_checking")
        cov = {"samples": self.samples or [{"none": True}]}
        if level == "fault_enumeration":
            cov.update(evaluations=self.fault_runs, distinct_nontrivial=self.fault_nontrivial,
                       rule="each call of a history is run once per allocation it makes, that allocation failing, in a process of its own; "
                            "a run counts as non-trivial if an allocation really failed in it")
        cov.update(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                   calls_compared=self.events, distinct_histories=len(self.seen), models=self.models, rounds=self.rounds)
        d = os.path.join(core.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                   "assumptions": props.ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 1), "violations": 1 if self.violation else 0},
                  open(os.path.join(d, self.pid + ".json"), "w"), indent=1)

    def run(self):
        core.build("std")
        if self.pid == "C23":
            try:
                core.build("amalg")
            except ToolError as e:
                path = os.path.join(core.VERIF, "replays", "C23-build.txt")
                os.makedirs(os.path.dirname(path), exist_ok=True)
                open(path, "w").write(str(e))
                print("the single-file distribution cannot be generated and compiled:\n" + str(e)[-1500:])
                self.violation = path
        if not self.violation:
            self.run_models()
            if not self.generated():
                self.conformance()
        self.known = props.known_findings(self)
        self.evidence()
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violation:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violation))
            return 1
        print("property %s held: %d histories (%d calls) of the real code are behaviours of the specification; %d model states; %.0f s"
              % (self.pid, self.traces, self.events, self.states, time.time() - self.t0))
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        sys.exit(Check(a.id, a.tier if a.tier == "thorough" else "quick", seed).run())
    except ToolError as e:
        print("ERROR (of the check, not a verdict): %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


main()
