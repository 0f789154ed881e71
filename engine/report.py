"""Collects what a rule decided: obligations, violations, and what was analysed."""
import json
import os
import time

from .load import REPO, VERIF

KNOWN = os.path.join(VERIF, "known-findings.json")


def rel(path):
    path = os.path.abspath(path) if path else "?"
    return os.path.relpath(path, REPO) if path.startswith(REPO) else path


class Undecided(Exception):
    """The source is not of a form in which the property can be decided."""


class Report:
    def __init__(self, prop, prog):
        self.prop, self.p = prop, prog
        self.t0 = time.time()
        self.obligations = []          # (rule, instance, where, ok, detail)
        self.seen = {}
        self.violations = []
        self.counts = {}
        self.functions = set()
        self.assumptions = []
        self.notes = []
        self.samples = {}
        self.explanation = ""

    # -- results -------------------------------------------------------------------------------
    def check(self, rule, instance, ok, where="", detail="", path=None):
        """One obligation. Equal (rule, instance) obligations collapse: violated if any is."""
        key = (rule, instance)
        i = self.seen.get(key)
        if i is None:
            self.seen[key] = len(self.obligations)
            self.obligations.append([rule, instance, where, bool(ok), "" if ok else detail])
            if not ok:
                self.violations.append({"rule": rule, "instance": instance, "where": where, "detail": detail,
                                        "path": list(path or ())})
        elif not ok and self.obligations[i][3]:
            self.obligations[i] = [rule, instance, where, False, detail]
            self.violations.append({"rule": rule, "instance": instance, "where": where, "detail": detail,
                                    "path": list(path or ())})
        return ok

    def bad(self, rule, instance, where="", detail="", path=None):
        return self.check(rule, instance, False, where, detail, path)

    def good(self, rule, instance, where=""):
        return self.check(rule, instance, True, where)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def require(self, cond, text):
        if not cond:
            raise Undecided(text)

    def absorb(self, I):
        s = I.stats
        self.functions |= set(s["functions"])
        for k in ("paths", "calls", "truncated", "merged", "states"):
            self.count(k, s[k] if isinstance(s[k], int) else len(s[k]))

    def sample(self, kind, text, limit=12):
        l = self.samples.setdefault(kind, [])
        if len(l) < limit and text not in l:
            l.append(text)

    def where(self, f, n=None):
        """file:line (function) of a node of a function."""
        line = f.line
        file = f.file
        if n is not None and 0 <= n < len(f.nodes):
            line = f.nodes[n].get("l", line)
        return f"{rel(file)}:{line} ({f.q})"

    # -- output --------------------------------------------------------------------------------
    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for e in json.load(open(KNOWN)):
                if e.get("property") == self.prop and e.get("status") == "finding":
                    out[(e["rule"], e["instance"])] = e
        return out

    def finish(self, tier, seed):
        known = self.known()
        new, old = [], []
        for v in self.violations:
            (old if (v["rule"], v["instance"]) in known else new).append(v)
        for v in old:
            e = known[(v["rule"], v["instance"])]
            print(f"KNOWN-FINDING: property={self.prop} {e['what']} [{v['where']}]")
        replay = os.path.join(VERIF, "replay", f"{self.prop}.json")
        if new:
            os.makedirs(os.path.dirname(replay), exist_ok=True)
            with open(replay, "w") as fh:
                json.dump(new, fh, indent=1)
            for v in new[:20]:
                print(f"  [{v['rule']}] {v['instance']} at {v['where']}: {v['detail']}")
                for step in v["path"][-14:]:
                    print(f"      {step}")
            print(f"VIOLATION property={self.prop} replay={replay}")
        elif os.path.exists(replay):
            os.remove(replay)
        n = len(self.obligations)
        ok = sum(1 for o in self.obligations if o[3])
        rules = {}
        for o in self.obligations:
            r = rules.setdefault(o[0], {"obligations": 0, "discharged": 0, "instances": []})
            r["obligations"] += 1
            r["discharged"] += bool(o[3])
            if len(r["instances"]) < 40:
                r["instances"].append(f"{o[1]} @ {o[2]}" + ("" if o[3] else "  FAILED: " + o[4]))
        ev = {
            "property": self.prop, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": self.explanation,
                "obligations": n, "discharged": ok,
                "functions_analysed": len(self.functions),
                "functions": sorted(self.functions)[:200],
                "counts": self.counts,
                "rules": rules,
                "samples": [f"{k}: {t}" for k, l in self.samples.items() for t in l],
                "violation_details": [f"[{v['rule']}] {v['instance']} at {v['where']}: {v['detail']}" for v in new],
                "program": {"functions": len(self.p.funcs), "records": len(self.p.records)} if self.p else {},
                "known_findings_reported": [f"{v['rule']}: {v['instance']}" for v in old],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print(f"{self.prop}: {ok}/{n} obligations discharged, {len(self.functions)} functions, "
              f"{len(old)} known, {len(new)} new ({ev['wall_s']} s)")
        return 1 if new else 0
