"""Executions of the installer scripts that come with the repository (tests/data), with
random answers, judged from the text of the script on."""

from __future__ import annotations

import functools
import glob
import os
import random
import re

from . import driver, engine, gens, tables
from .lang import Job, lit

WORDS = {w["n"] for ws in tables.WORDS for w in ws}
TOKEN = re.compile(r"""(?s);[^\r\n]*|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|([A-Za-z_][A-Za-z0-9_]*)""")


@functools.lru_cache(None)
def scripts():
    out = []
    for f in sorted(glob.glob(os.path.join(driver.REPO, "tests", "data", "*", "wizard.txt"))):
        if "/DEMO Wizard 292" in f:      # has syntax errors, where the specification does not say how the rest is read
            continue
        b = open(f, "rb").read()
        try:
            s = b.decode("utf-8")
        except UnicodeDecodeError:
            s = b.decode("cp1252", "replace")
        s = s.replace("\r\n", "\n")
        files = []
        g = os.path.join(os.path.dirname(f), "files.txt")
        if os.path.exists(g):
            files = [x.strip() for x in open(g, errors="replace") if x.strip()]
        subs = sorted({x.split("/")[0] for x in files if x.split(" ")[0].isdigit()})
        pkgs = []
        for p in subs:
            fs = [x for x in files if x.split("/")[0] == p]
            fs = [x for x in fs if x[-4:] in (".esp", ".esm", ".esl")][:3] + fs[:1]
            pkgs.append((p, fs))
        names = sorted({m for m in TOKEN.findall(s) if m and m not in WORDS})
        out.append((os.path.basename(os.path.dirname(f))[:20], s, pkgs, names))
    return out


class Text(Job):
    """A job which is only known by its text."""

    def __init__(self, text, names, pkgs=(), sev=None):
        super().__init__([], pkgs, sev)
        self.script = text
        self.names = list(names)
        self.index = {n: i + 1 for i, n in enumerate(self.names)}


LINES = ["GetFilename(\"p{n}\")", "Note \"n{n}\"", "x{m} = {n}", "x{m}++", "Break", "Return", "Cancel \"c{n}\"", "SelectAll", "DeSelectAll",
         "DeSelectAllPlugins", "SelectAllPlugins", "If DataFileExists(\"q{n}\")\nGetFilename(\"y{n}\")\nElse\nGetFilename(\"z{n}\")\nEndIf",
         "ResetAllPluginNames", "EditINI(\"f\", \"s\", \"k\", x{m})", "For i{m} from 1 to 2\nGetFilename(\"l{n}\")\nEndFor", "x{m} += 1", "Exec(3)",
         "For i{m} in SubPackages\nSelectSubPackage i{m}\nEndFor"]


def changed(rng, s, names):
    """The script with some statements between its own ones (only after a line which
    certainly ends a statement)."""
    ls = s.split("\n")
    at = [i for i, x in enumerate(ls) if re.fullmatch(r"\s*(Break|EndIf|EndSelect|\w+\s*=\s*(\"[^\"\\]*\"|\d+|True|False))\s*", x)]
    names = list(names)
    ins = {}
    for n in range(rng.randint(1, 6)):
        if at:
            m = rng.randint(1, 3)
            x = rng.choice(LINES).format(n=n, m=m)
            if x.split("\n")[-1].endswith(("All", "AllPlugins", "Names")):      # would take an expression on the next line
                x += "\nIf False\nEndIf"
            ins.setdefault(rng.choice(at), []).append(x)
            for v in (f"x{m}", f"i{m}"):
                if v not in names:
                    names.append(v)
    out = []
    for i, x in enumerate(ls):
        out.append(x)
        out += ins.get(i, [])
    return "\n".join(out), sorted(names)


def corpus(args):
    prop, seed, i = args
    key = f"{seed}:{prop}:corpus:{i}"
    rng = random.Random(key)
    all_ = scripts()
    n, s, pkgs, names = rng.choices(all_, [0.3 if len(x[1]) > 30000 else 1 for x in all_])[0]
    if rng.random() < 0.5:
        s, names = changed(rng, s, names)
    if len(pkgs) > 14 or rng.random() < 0.2:
        pkgs = rng.sample(pkgs, min(14, (len(pkgs) + 1) // 2))
    job = Text(s, names, pkgs, [rng.choice([1, 1, 1, 0, 2]) for _ in range(6)] if rng.random() < 0.3 else None)
    job.manner = driver.manner(rng)
    kinds = {"C10": ["rewind"], "C11": ["abort", "decline"], "C08": ["decline"], "C12": ["raise"]}.get(prop, ["rewind", "abort", "decline", "raise"])
    if rng.random() < (0.5 if prop in ("C10", "C11", "C12", "C08") else 0.85):
        pol = {}
    else:
        pol = {"p": rng.choice([0.05, 0.2]), "budget": rng.randint(1, 3), "kinds": kinds}
    obs = "rewind" in kinds and rng.random() < 0.3
    mode = "step" if rng.random() < 0.3 else "run"
    if prop == "C10":
        sc = gens.scenario(job, pol, mode=mode, observe=True, rw=True, p_jump=0.05, jumps=3)
    else:
        sc = gens.scenario(job, pol, mode=mode, observe=obs)
    if rng.random() < 0.3 or prop == "C24":
        sc["forms"] = True
    rec, jumps = engine.record(sc, key)
    j = job.to_json(i, rec.events, rw=sc.get("rw", False) or bool(jumps) or engine.uses_rewind(sc) or sc.get("observe", False), jumps=jumps)
    j["script"], j["source"], j["key"] = s, True, f"{key} ({n})"
    j["mode"] = sc["mode"] + (" from " + sc["form"] if "form" in sc else "")
    return j
