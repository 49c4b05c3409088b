"""Collects what the engines of a check covered and found; writes the evidence."""

from __future__ import annotations

import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
MAX_REPLAYS = 5


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = 0        # distinct states found by TLC
        self.transitions = 0   # states generated by TLC
        self.traces = 0        # executions of the implementation judged by the specification
        self.violations = []   # replay documents
        self.nviol = 0
        self.samples = []
        self.parts = {}
        self.assumptions = []
        for i in range(1, MAX_REPLAYS + 1):    # of an earlier run
            path = os.path.join(EVIDENCE, f"{prop}-violation-{i}.json")
            if os.path.exists(path):
                os.remove(path)

    def tlc(self, r):
        self.states += r.distinct
        self.transitions += r.states

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, doc):
        """doc: {engine, key, ...} with what is needed to run it again."""
        self.nviol += 1
        if len(self.violations) < MAX_REPLAYS:
            self.violations.append(doc)

    def part(self, name, **kw):
        d = self.parts.setdefault(name, {})
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                d[k] = round(d.get(k, 0) + v, 3)
            elif isinstance(v, dict):
                e = d.setdefault(k, {})
                for a, n in v.items():
                    e[a] = e.get(a, 0) + n
            else:
                d[k] = v

    def finish(self):
        known = findings(self.prop)
        new = []
        for doc in self.violations:
            hit = [k for k in known if k and k == doc.get("key")]
            if hit:
                print(f"KNOWN-FINDING: property={self.prop} {hit[0]}")
            else:
                new.append(doc)
        os.makedirs(EVIDENCE, exist_ok=True)
        out = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples or ["none"], "parts": self.parts,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": self.nviol,
        }
        with open(os.path.join(EVIDENCE, f"{self.prop}.json"), "w") as fp:
            json.dump(out, fp, indent=1, ensure_ascii=False)
        for i, doc in enumerate(new):
            path = os.path.join(EVIDENCE, f"{self.prop}-violation-{i + 1}.json")
            with open(path, "w") as fp:
                json.dump(doc, fp, indent=1, ensure_ascii=False)
            if doc.get("summary"):
                print(doc["summary"])
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        if not new:
            print(f"OK property={self.prop} tier={self.tier} seed={self.seed} states={self.states} "
                  f"traces={self.traces} wall={time.time() - self.t0:.1f}s", flush=True)
        return 1 if new else 0


def findings(prop):
    """Identities of the known findings of a property (not the fixed ones)."""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property=" + prop + " "):
                out.append(line.split(" ", 2)[2])
    return out
