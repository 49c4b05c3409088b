"""All short histories of severities, replayed on the implementation."""

from __future__ import annotations

import random
import time

from . import driver, tlc
from .driver import ISSUES, SEVERITIES, Plan, Runner
from .engine import WORKERS, pool
from wizard.severity import SeverityContext

CFG = """SPECIFICATION Spec
CONSTANT MaxLen = %d
INVARIANT Same
INVARIANT Independent
PROPERTY OnlyThat
INVARIANT Shown
CHECK_DEADLOCK FALSE
"""


class Plain(SeverityContext):
    def __init__(self):
        super().__init__()
        self.got = []

    def warning(self, text):
        self.got.append(text)


class Quiet(Runner):
    """A runner that collects what it is told."""

    def __init__(self):
        super().__init__(driver.SubPackages([]))
        self.got = []

    def warning(self, text):
        self.got.append(text)

    def error(self, exc):
        self.got.append("E")

    def complete(self):
        self.got.append("C")
        return True

    def selectOne(self, description, options, default):
        return default


class Told(Exception):
    pass


def ask(ctx, issue, others):
    """What an issue does: the severity it shows, or what is wrong."""
    before = [len(o.got) for o in others]
    ctx.got.clear()
    try:
        ctx.raise_or_warn(issue, Told(), "text")
        r = {0: 0, 1: 1}.get(len(ctx.got), f"{len(ctx.got)} warnings")
        if ctx.got and ctx.got != ["text"]:
            r = "another text"
    except Told:
        r = 2 if not ctx.got else "warned and raised"
    if before != [len(o.got) for o in others]:
        r = "another context was warned"
    return r


# A script for each issue.
SCRIPTS = {
    "NOTSET": "a = x\n", "MISSPKG": 'SelectSubPackage "none"\n', "MISSPLG": 'SelectPlugin "none.esp"\n', "NOTE": "Note 3\n",
    "MULTI": 'SelectOne "d", "|a", "", "", "|b", "", ""\nCase "a"\nBreak\nEndSelect\n',
}
AT = {"MULTI": 0, "NOTSET": 1, "NOTE": 3, "MISSPKG": 4, "MISSPLG": 5}


def run(r, name, others):
    before = [len(o.got) for o in others]
    r.got.clear()
    r.run(SCRIPTS[name])
    g = [x if x in "EC" else "W" for x in r.got]
    res = {"C": 0, "WC": 1, "E": 2}.get("".join(g), "".join(g))
    return "another runner was told" if before != [len(o.got) for o in others] else res


def play(args):
    """Replays a history; returns the differences."""
    h, seed, scripts = args
    rng = random.Random(seed)
    bad = []
    names = rng.sample(sorted(SCRIPTS), 3)      # issues 1 to 3 of the history
    issues = [ISSUES[AT[n]] for n in names]
    kinds = rng.choice([(Quiet, Quiet), (Plain, Plain), (Quiet, Plain)])
    if scripts:
        kinds = (Quiet, Quiet)
    ctxs = [k() for k in kinds]
    bystander = rng.choice(kinds)()
    now = [[1, 1, 1], [1, 1, 1]]
    always = rng.random() < 0.5
    for n in range(len(h["hist"]) + 1):
        last = n == len(h["hist"])
        if (always or last) and (last or scripts is False or rng.random() < 0.5):
            want = h["eff"] if last else h["prefix"][n]
            for k in (0, 1):
                for i in range(3):
                    others = [ctxs[1 - k], bystander]
                    got = run(ctxs[k], names[i], others) if scripts else ask(ctxs[k], issues[i], others)
                    if got != want[k][i]:
                        bad.append({"after": h["hist"][:n], "context": k + 1, "issue": names[i], "got": got, "want": want[k][i],
                                    "by": "script" if scripts else "raise_or_warn", "kinds": [c.__name__ for c in kinds]})
            if ask(bystander, issues[0], ctxs) != 1:
                bad.append({"after": h["hist"][:n], "context": "fresh", "issue": names[0], "got": "not a warning"})
        if not last:
            o = h["hist"][n]
            c = ctxs[o["r"] - 1]
            if o["i"]:
                c.set_severity(issues[o["i"] - 1], SEVERITIES[o["s"]])
            else:
                c.set_default_severity(SEVERITIES[o["s"]])
    return bad


def severity_engine(rep, maxlen, scripts, name="severities"):
    t = time.time()
    r = tlc.run_tlc("WSeverity", CFG % maxlen, workers=WORKERS)
    if r.violated or "No error has been found" not in r.output:
        raise tlc.TLCError(f"a law of the severities fails ({r.violated})\n" + r.output[-3000:])
    rep.tlc(r)
    key = lambda h: tuple((o["r"], o["i"], o["s"]) for o in h)  # noqa: E731
    eff = {key(p["hist"]): p["eff"] for p in r.prints}
    hs = sorted(r.prints, key=lambda p: key(p["hist"]))
    for h in hs:
        h["prefix"] = [eff[key(h["hist"])[:n]] for n in range(len(h["hist"]))]
    rng = random.Random(f"{rep.seed}:severities")
    tasks = [(h, f"{rep.seed}:{i}", False) for i, h in enumerate(hs)]
    tasks += [(h, f"{rep.seed}:{i}:s", True) for i, h in enumerate(rng.sample(hs, min(scripts, len(hs))))]
    nbad = 0
    with pool() as p:
        for (h, _, sc), bad in zip(tasks, p.imap(play, tasks, chunksize=50)):
            if bad and nbad < 5:
                rep.violation({"property": rep.prop, "engine": name, "key": f"severity history {key(h['hist'])}", "history": h["hist"],
                               "differences": bad, "summary": f"severities after {h['hist']}: {bad[:3]}"})
            nbad += bool(bad)
    rep.traces += len(tasks)
    rep.part(name, histories=len(hs), by_scripts=len(tasks) - len(hs), states=r.distinct, rejected=nbad, wall_s=time.time() - t)
