"""Collects obligations and violations of one property and writes the evidence file."""
from __future__ import annotations

import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """The analysis cannot be carried out (a public anchor is gone)."""


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obligations, self.violations, self.skipped = [], {}, []
        self.functions, self.rules = set(), []
        self.t0 = time.time()

    def rule(self, text):
        self.rules.append(text)

    def ok(self, what):
        self.obligations.append(what)

    def bad(self, key, where, why):
        """Record a violation: *key* names rule and construct (never a line number)."""
        self.obligations.append(key)
        self.violations.setdefault(key, (where, why))

    def skip(self, what):
        """An obligation the analysis cannot express on this shape of code (stays silent)."""
        self.skipped.append(what)

    def check(self, cond, key, where, why):
        if cond:
            self.ok(key)
        else:
            self.bad(key, where, why)

    def saw(self, r):
        self.functions |= r.analysed


def known(prop):
    """Known findings: lines 'finding: property=<id> key=<key> :: text'."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=" + prop + " "):
                k, _, text = line.split(" key=", 1)[1].partition(" :: ")
                out[k.strip()] = text.strip()
    return out


def finish(rep, ip, meta):
    kf = known(rep.prop)
    new = {k: v for k, v in rep.violations.items() if k not in kf}
    old = {k: v for k, v in rep.violations.items() if k in kf}
    n = len(rep.obligations)
    ev = {
        "property": rep.prop,
        "tier": rep.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": meta["level"],
        "wall_s": round(time.time() - rep.t0, 3),
        "violations": len(new),
        "assumptions": meta.get("assumptions", []),
        "coverage": {
            "explanation": meta["explanation"],
            "rules": rep.rules,
            "source_digest": ip.sources.digest if ip is not None else "",
            "functions_analysed": len(rep.functions),
            "obligations": n,
            "discharged": n - len(rep.violations),
            "undecided_skipped": len(rep.skipped),
            "obligation_list": sorted(set(map(str, rep.obligations)))[:400],
            "skipped": sorted(set(map(str, rep.skipped)))[:100],
            "functions": sorted(rep.functions),
        },
        "reports": [{"key": k, "where": w, "why": y} for k, (w, y) in new.items()],
        "known_findings": [{"key": k, "where": w, "why": y} for k, (w, y) in old.items()],
    }
    if getattr(rep, "note", None):
        ev["coverage"]["note"] = rep.note
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, rep.prop + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{rep.prop}: {n} obligations over {len(rep.functions)} functions, {len(new)} violation(s), "
          f"{len(old)} known finding(s), {len(rep.skipped)} undecided")
    for k, (w, y) in sorted(old.items()):
        print(f"KNOWN-FINDING: property={rep.prop} {k} at {w}: {y}")
    for k, (w, y) in sorted(new.items()):
        print(f"  {w}: [{k}] {y}")
    if new:
        print(f"VIOLATION property={rep.prop} replay={path}")
        return 1
    return 0
