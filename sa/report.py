"""Obligation bookkeeping, evidence files and the VIOLATION / KNOWN-FINDING protocol."""
from __future__ import annotations

import contextlib
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_keys(pid):
    """Findings listed for a property: {(rule, construct): text}. ``fixed:`` lines suppress nothing."""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            fields = {}
            head, _, text = line[len("finding:"):].partition("::")
            for part in head.split():
                k, _, v = part.partition("=")
                fields[k] = v
            if fields.get("property") == pid:
                out[(fields["rule"], fields["construct"])] = text.strip()
    return out


class Check:
    """Collects the obligations of one property."""

    def __init__(self, pid, tier, repo):
        self.pid, self.tier, self.repo = pid, tier, repo
        self.t0 = time.time()
        self.obl = {}      # rule -> [ok, bad, unknown]
        self.violations = []   # (rule, construct, msg, where)
        self.unknowns = []
        self.oks = []
        self.scenarios = []
        self.functions = set()
        self.notes = []
        self.mins = []
        self.rules_text = {}
        self._seen = set()

    # ---- results
    def rule(self, name, text):
        self.rules_text[name] = text
        self.obl.setdefault(name, [0, 0, 0])

    def ok(self, rule, construct, detail=""):
        k = ("ok", rule, construct, detail)
        if k in self._seen:
            return
        self._seen.add(k)
        self.obl.setdefault(rule, [0, 0, 0])[0] += 1
        self.oks.append((rule, construct, detail))

    def bad(self, rule, construct, msg, where=""):
        construct = construct.replace(" ", "_")
        k = ("bad", rule, construct)
        if k in self._seen:
            return
        self._seen.add(k)
        self.obl.setdefault(rule, [0, 0, 0])[1] += 1
        self.violations.append((rule, construct, msg, where))

    def unknown(self, rule, construct, why=""):
        k = ("unk", rule, construct, why)
        if k in self._seen:
            return
        self._seen.add(k)
        self.obl.setdefault(rule, [0, 0, 0])[2] += 1
        self.unknowns.append((rule, construct, why))

    @contextlib.contextmanager
    def guard(self, name):
        """One scenario whose analysis fails leaves its obligations undecided; the others still count."""
        try:
            yield
        except Exception as e:   # noqa: BLE001
            if os.environ.get("SA_DEBUG"):
                raise
            self.unknown("scenario", name, f"not analysed: {type(e).__name__}: {e}"[:200])

    def need(self, rule, n):
        self.mins.append((rule, n))

    # ---- output
    def finish(self, level="other"):
        from .core import AnalysisBroken
        known = known_keys(self.pid)
        if all((v[0], v[1]) in known for v in self.violations):
            for rule, n in self.mins:
                got = sum(self.obl.get(rule, [0, 0, 0]))
                if got < n:
                    self.unknown(rule, "instances", f"{got} instances found where {n} were confirmed by hand")
            if not sum(v[0] for v in self.obl.values()):
                raise AnalysisBroken("no obligation of any rule was found")
        new, listed = [], []
        for v in self.violations:
            (listed if (v[0], v[1]) in known else new).append(v)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level,
            "coverage": {
                "explanation": "Static analysis of the current source of /repo; nothing was executed. "
                               "An obligation is one instance of a rule at one construct; undecided obligations "
                               "are listed and not counted as discharged.",
                "rules": [{"rule": r, "text": self.rules_text.get(r, ""), "discharged": c[0], "violated": c[1],
                           "undecided": c[2]} for r, c in sorted(self.obl.items())],
                "modules_parsed": len(self.repo.modules),
                "functions_analysed": sorted(self.functions),
                "scenarios": self.scenarios,
                "obligations": sum(sum(c) for c in self.obl.values()),
                "undecided": [f"{r} {c}: {w}" for r, c, w in self.unknowns][:200],
                "discharged": [f"{r} {c}" + (f": {d}" if d else "") for r, c, d in self.oks][:400],
                "known_findings": [f"{r} {c}: {m}" for r, c, m, _ in listed],
                "violations": [{"rule": r, "construct": c, "message": m, "where": w} for r, c, m, w in new],
                "notes": self.notes,
            },
            "wall_s": round(time.time() - self.t0, 3),
        }
        d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for r, c, m, w in listed:
            print(f"KNOWN-FINDING: property={self.pid} {r} {c}: {m}")
        rd = os.path.join(d, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (r, c, m, w) in enumerate(new, 1):
            path = os.path.join("evidence", "replay", f"{self.pid}-{n}.json")
            with open(os.path.join(rd, f"{self.pid}-{n}.json"), "w") as f:
                json.dump({"property": self.pid, "rule": r, "rule_text": self.rules_text.get(r, ""),
                           "construct": c, "message": m, "where": w,
                           "rerun": f"cd /verif && python3 -m sa.run {self.pid}"}, f, indent=1)
            print(f"  {w}: [{r}] {c}: {m}")
            print(f"VIOLATION property={self.pid} replay={path}")
        tot = [sum(c[i] for c in self.obl.values()) for i in range(3)]
        print(f"{self.pid}: {tot[0]} obligations discharged, {len(new)} violated, {len(listed)} known findings, "
              f"{tot[2]} undecided, {len(self.functions)} functions, {round(time.time() - self.t0, 1)}s")
        return 1 if new else 0
