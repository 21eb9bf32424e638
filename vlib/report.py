"""Obligation bookkeeping, known findings, evidence files and exit codes."""
import json
import os
import sys
import time
import traceback

from .repo import AnalysisBroken, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")


class Report:
    def __init__(self, pid, tier="quick", technique="", explanation="", assumptions=()):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.technique = technique
        self.explanation = explanation
        self.assumptions = list(assumptions)
        self.obs = {}            # rule -> {instance: (ok, detail, loc)}
        self.rules = {}          # rule -> text
        self.minimum = {}        # rule -> minimum number of instances
        self.notes = []
        Report.last = self
        self.extra = {}

    def rule(self, name, text, minimum=0):
        self.rules[name] = text
        self.minimum[name] = minimum
        self.obs.setdefault(name, {})

    def ob(self, rule, instance, ok, detail="", loc=""):
        d = self.obs.setdefault(rule, {})
        if instance in d and not d[instance][0]:
            return
        d[instance] = (bool(ok), detail, loc)

    def fail(self, rule, instance, detail="", loc=""):
        self.ob(rule, instance, False, detail, loc)

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN, encoding="utf-8"):
                line = line.strip()
                if line.startswith("known: "):
                    body = line[len("known: "):]
                    head, _, desc = body.partition(" :: ")
                    parts = head.split(" ", 1)
                    pid = parts[0].split("=", 1)[1]
                    key = parts[1].split("=", 1)[1].strip()
                    out.setdefault(pid, {})[key] = desc
        return out.get(self.pid, {})

    undecided = ()
    last = None

    def part(self, name, fn, *args):
        """one part of the analysis; code it cannot follow leaves this part undecided (and says so), not the others"""
        try:
            fn(*args)
        except Exception as e:
            self.undecided = list(self.undecided) + ["%s: %s: %s" % (name, type(e).__name__, str(e)[:200])]

    def finish(self):
        known = self.known()
        nob = sum(len(d) for d in self.obs.values())
        bad = []
        kn = []
        for r, d in sorted(self.obs.items()):
            for inst, (ok, detail, loc) in sorted(d.items()):
                if ok:
                    continue
                key = "%s|%s" % (r, inst)
                if key in known:
                    kn.append((key, known[key]))
                else:
                    bad.append({"rule": r, "rule_text": self.rules.get(r, ""), "instance": inst, "key": key,
                                "detail": detail, "location": loc})
        broken = []
        for r, m in self.minimum.items():
            if len(self.obs.get(r, {})) < m:
                broken.append("rule %s matched %d instances, at least %d expected" % (r, len(self.obs.get(r, {})), m))
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.explanation,
                "technique": self.technique,
                "obligations": nob,
                "discharged": nob - len(bad) - len(kn),
                "rules": {r: {"text": self.rules.get(r, ""), "instances": len(d),
                              "failed": sum(1 for v in d.values() if not v[0])}
                          for r, d in self.obs.items()},
                "known_findings": [k for k, _ in kn],
                "samples": {r: sorted(d)[:2000 if self.tier == "thorough" else 400] for r, d in self.obs.items()},
            },
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(bad),
            "assumptions": self.assumptions,
        }
        if self.undecided:
            ev["coverage"]["undecided"] = self.undecided
        ev["coverage"].update(self.extra)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        for k, d in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, d))
        for r, d in sorted(self.obs.items()):
            print("%s %s: %d instances, %d failed -- %s" % (self.pid, r, len(d), sum(1 for v in d.values() if not v[0]),
                                                            self.rules.get(r, "")))
        if bad:
            rp = os.path.join(EVID, self.pid + ".violations.json")
            with open(rp, "w") as fh:
                json.dump(bad, fh, indent=1, default=str)
            for b in bad:
                print("  [%s] %s: %s  at %s" % (b["rule"], b["instance"], b["detail"], b["location"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        for u in self.undecided:
            print("UNDECIDED property=%s %s" % (self.pid, u))
        if broken and not self.undecided:
            for b in broken:
                print("ANALYSIS-BROKEN property=%s %s" % (self.pid, b))
            return 2
        print("OK property=%s obligations=%d" % (self.pid, nob))
        return 0


def main(fn, pid):
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    try:
        rc = fn(tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        rc = 2
    except Exception as e:
        traceback.print_exc()
        r = Report.last
        if r is not None and sum(len(d) for d in r.obs.values()) > 0:
            # what was decided before counts; the rest is reported as undecided
            r.undecided = list(r.undecided) + ["the rest of the analysis: %s: %s" % (type(e).__name__, str(e)[:200])]
            rc = r.finish()
        else:
            print("ANALYSIS-BROKEN property=%s internal error" % pid)
            rc = 3
    sys.exit(rc)
