"""Obligation bookkeeping, known findings, evidence and the verdict line."""
from __future__ import annotations

import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop: str, tier: str):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obligations = []  # (rule, instance, where, ok, msg)
        self.rules = {}  # rule -> description
        self.floors = {}
        self.analysed = set()
        self.errors = []
        self.notes = []
        self.samples_self = []

    def rule(self, rid, text, floor=1):
        self.rules[rid] = text
        self.floors[rid] = floor

    def ok(self, rule, instance, where="", msg=""):
        self.obligations.append((rule, str(instance), where, True, msg))

    def bad(self, rule, instance, where, msg):
        self.obligations.append((rule, str(instance), where, False, msg))

    def check(self, cond, rule, instance, where, msg):
        (self.ok if cond else self.bad)(rule, instance, where, msg if not cond else "")

    def saw(self, *names):
        self.analysed.update(names)

    def broken(self, msg):
        self.errors.append(msg)

    # ------------------------------------------------------------------
    def finish(self, project, assumptions=(), known=None):
        known = known if known is not None else load_known(self.prop)
        for r, n in self.floors.items():
            c = sum(1 for o in self.obligations if o[0] == r)
            if c < n:
                self.errors.append(f"rule {r}: {c} instances found, at least {n} were confirmed by hand — anchor vanished")
        for o in self.obligations:
            if o[0] not in self.rules:
                self.errors.append(f"rule {o[0]} undocumented")
        # merge duplicates of the same (rule, instance): bad wins
        merged = {}
        for r, i, w, ok, m in self.obligations:
            k = (r, i)
            if k not in merged or (merged[k][3] and not ok):
                merged[k] = (r, i, w, ok, m)
        obs = list(merged.values())
        bads = [o for o in obs if not o[3]]
        viol, knownhits = [], []
        for o in bads:
            key = f"{o[0]}|{o[1]}"
            hit = next((k for k in known if k["key"] == key), None)
            (knownhits if hit else viol).append((o, hit))
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the working tree's source; no repository code is executed. Each obligation is one rule applied to one construct found in the source (call site, class, path set or function); an obligation is discharged when the rule holds on every path the analysis follows.",
                "rules": {r: {"text": t, "obligations": sum(1 for o in obs if o[0] == r), "discharged": sum(1 for o in obs if o[0] == r and o[3]), "confirmed_floor": self.floors.get(r)} for r, t in self.rules.items()},
                "obligations": len(obs),
                "discharged": len(obs) - len(bads),
                "functions_analysed": len(self.analysed),
                "functions": sorted(self.analysed)[:400],
                "modules_parsed": len(project.modules),
                "functions_parsed": len(project.functions),
                "classes_parsed": len(project.classes),
                "source_digest": project.digest(),
                "samples": [{"rule": o[0], "instance": o[1], "where": o[2], "ok": o[3]} for o in obs[:: max(1, len(obs) // 40)]][:60],
                "known_findings": [f"{o[0]}|{o[1]}" for o, _ in knownhits],
                "violating": [{"rule": o[0], "instance": o[1], "where": o[2], "message": o[4]} for o, _ in viol],
                "notes": self.notes,
                "exhaustive": True,
            },
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for o, k in knownhits:
            print(f"KNOWN-FINDING: property={self.prop} {o[0]} {o[1]} at {o[2]}: {k['what']}")
        if viol:
            rp = os.path.join(evd, f"{self.prop}.violation.json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "rerun": f"python3 check.py {self.prop}", "findings": [{"rule": o[0], "rule_text": self.rules.get(o[0], ""), "instance": o[1], "where": o[2], "message": o[4]} for o, _ in viol]}, f, indent=1)
            for o, _ in viol:
                print(f"{o[2]}: [{self.prop}/{o[0]}] {o[1]}: {o[4]}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            if self.errors:
                for e in self.errors:
                    print(f"note: {e}", file=sys.stderr)
            return 1
        if self.errors:
            for e in self.errors:
                print(f"ANALYSIS-BROKEN property={self.prop}: {e}")
            return 3
        print(f"OK property={self.prop} obligations={len(obs)} discharged={len(obs) - len(bads)} known={len(knownhits)} functions={len(self.analysed)} wall={time.time() - self.t0:.1f}s")
        return 0


def load_known(prop):
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    out = []
    if not os.path.exists(p):
        return out
    with open(p) as f:
        for line in f:
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            # known: property=C01 key=<rule|instance> what=<text>
            if line.startswith("known:"):
                body = line[len("known:"):].strip()
                pr = body.split()[0].split("=", 1)[1]
                key = body.split("key=", 1)[1].split(" what=", 1)[0]
                what = body.split(" what=", 1)[1]
                if pr == prop:
                    out.append({"key": key, "what": what})
    return out
