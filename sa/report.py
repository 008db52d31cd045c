"""What a check found: obligations discharged, violated and undecided, and how it is reported."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, title=""):
        self.pid, self.title = pid, title
        self.rules = {}        # rule -> text
        self.good, self.badl, self.unsurel = {}, {}, {}
        self.samples = {}
        self.analysed = {}
        self.assumptions = []
        self.need = set()
        self.t0 = time.time()

    def rule(self, name, text, required=True):
        self.rules[name] = text
        if required:
            self.need.add(name)
        return name

    def ok(self, rule, where, detail=None):
        k = (rule, where)
        self.good[k] = self.good.get(k, 0) + 1
        if rule not in self.samples:
            self.samples[rule] = {"rule": rule, "site": where, "detail": str(detail)[:600] if detail else ""}

    def bad(self, rule, where, detail):
        self.badl.setdefault((rule, where), str(detail))

    def unsure(self, rule, where, why):
        self.unsurel.setdefault((rule, where), str(why))

    def judge(self, rule, where, verdict, detail=None):
        """verdict: True, False or None (undecided)."""
        if verdict is True:
            self.ok(rule, where, detail)
        elif verdict is False:
            self.bad(rule, where, detail or "")
        else:
            self.unsure(rule, where, detail or "")

    def note(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and isinstance(self.analysed.get(k), int):
                v += self.analysed[k]
            self.analysed[k] = v

    # ------------------------------------------------------------
    def known(self):
        out = {}
        p = os.path.join(HERE, "known-findings.txt")
        if os.path.exists(p):
            for line in open(p):
                if line.startswith("finding: property=%s " % self.pid):
                    rest = line.split(" ", 2)[2].strip()
                    site, _, what = rest.partition(" :: ")
                    out[site] = what
        return out

    def finish(self, tier, seed, out=sys.stdout):
        ev = os.environ.get("SA_EVIDENCE") or os.path.join(HERE, "evidence")
        os.makedirs(ev, exist_ok=True)
        known = self.known()
        fresh = {}
        for (rule, where), d in self.badl.items():
            key = "%s@%s" % (rule, where)
            if key in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[key]), file=out)
            else:
                fresh[(rule, where)] = d
        total = sum(self.good.values())
        per = {}
        for (rule, where), n in self.good.items():
            p = per.setdefault(rule, {"obligations_discharged": 0, "distinct_sites": 0})
            p["obligations_discharged"] += n
            p["distinct_sites"] += 1
        for (rule, where), d in self.badl.items():
            p = per.setdefault(rule, {"obligations_discharged": 0, "distinct_sites": 0})
            p["violated"] = p.get("violated", 0) + 1
        for (rule, where), d in self.unsurel.items():
            p = per.setdefault(rule, {"obligations_discharged": 0, "distinct_sites": 0})
            p["undecided"] = p.get("undecided", 0) + 1
        for r in sorted(r for r in self.need if r not in per):
            # the code was rearranged beyond recognition: no answer, and not an alarm either
            self.unsure(r, "program", "no construct of the program is an instance of this rule")
            per[r] = {"obligations_discharged": 0, "distinct_sites": 0, "undecided": 1}
        cov = {
            "explanation": "Static analysis of /repo's current sources (compiled to LLVM IR, nothing executed). "
                           "An obligation is one rule at one program point in one abstract context; it is "
                           "discharged when the abstract state there entails the rule.",
            "obligations": total + len(self.badl) + len(self.unsurel),
            "discharged": total,
            "distinct_sites": len(self.good),
            "undecided": ["%s @ %s: %s" % (r, w, d[:300]) for (r, w), d in sorted(self.unsurel.items())][:40],
            "rules": self.rules,
            "per_rule": per,
            "analysed": self.analysed,
            "samples": list(self.samples.values())[:12],
        }
        doc = {"property": self.pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        with open(os.path.join(ev, self.pid + ".json"), "w") as f:
            json.dump(doc, f, indent=1, sort_keys=True)
            f.write("\n")
        for (rule, where), d in sorted(self.unsurel.items())[:20]:
            print("UNDECIDED %s @ %s: %s" % (rule, where, d[:400]), file=out)
        if fresh:
            rp = os.path.join(ev, self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for (rule, where), d in sorted(fresh.items()):
                    f.write("rule %s\n  %s\nviolated at %s\n  %s\n\n" % (rule, self.rules.get(rule, ""), where, d))
            for (rule, where), d in sorted(fresh.items())[:10]:
                print("%s violated at %s: %s" % (rule, where, d[:600]), file=out)
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(rp, HERE)), file=out)
            return 1
        rp = os.path.join(ev, self.pid + ".violation.txt")
        if os.path.exists(rp):
            os.remove(rp)
        print("OK property=%s obligations=%d sites=%d undecided=%d (%.1fs)" % (
            self.pid, total, len(self.good), len(self.unsurel), time.time() - self.t0), file=out)
        return 0
