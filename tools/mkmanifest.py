#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
TRACE = ("TLA+ interpreter model (Wizard.tla) checked with TLC: behaviours generated by TLC replayed on the code, "
         "recorded executions, walks over contexts and sessions of several executions validated against it; "
         "part of them judged from the characters of the script on (WLexer, WGrammar, WSource)")
TABLE = "TLA+ model of values and expressions (WExpr.tla) judging recorded evaluations with TLC"
BIG = "; numbers of any size by exact arithmetic (WBig.tla)"
TECH = {
    "C16": TRACE + "; all short severity histories (WSeverity.tla) replayed on the code",
    "C17": TABLE + BIG, "C19": TABLE + BIG,
    "C20": "TLA+ lexer, grammar and evaluator (WGrammar.tla) judging recorded evaluations with TLC",
    "C21": "TLA+ lexer (WLexer.tla) and grammar judging recorded evaluations with TLC" + BIG,
    "C25": "TLA+ model of stacked mappings checked with TLC; its histories replayed on the code, recorded ones judged",
    "C26": "TLA+ model of case-insensitive names judging recorded comparisons with TLC",
}
NOTE = ("Bounded: exhaustive over the enumerated part stated in DESIGN.md, seeded random sampling of programs, answers and "
        "inputs beyond it. Trusts TLC, the specification in spec/, and the recorder wv/driver.py, which only uses the public interface.")
checks = []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)["id"]
    checks.append({
        "property": p,
        "quick_cmd": f"{PY} tools/check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough {PY} tools/check.py {p}",
        "technique": TECH.get(p, TRACE),
        "level": "model_checking",
        "level_note": NOTE,
    })
doc = {"version": 1, "setup_cmd": f"{PY} tools/selfcheck.py", "checks": checks, "not_applicable": [],
       "notes": "No hooks: the recorder uses the documented interface of the interpreter only."}
(ROOT / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
