"""What each check runs."""

from __future__ import annotations

import random
import time

from . import big, corpus, driver, engine, names, session, severity, stackmap, tables


class Budget:
    def __init__(self, tier):
        self.tier = tier
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.deadline = self.t0 + (500 if self.quick else 6 * 3600)

    def n(self, quick, thorough):
        return quick if self.quick else thorough


def traces(rep, b, quick=1500, thorough=60000, name="traces", prop=None):
    return engine.trace_engine(rep, name, b.n(quick, thorough), deadline=b.deadline, prop=prop)


def walks(rep, b, quick=600, thorough=30000, name="walks", prop=None):
    return engine.trace_engine(rep, name, b.n(quick, thorough), one_fn=engine.walk, module="WizardWalk",
                               deadline=b.deadline, prop=prop)


def table(rep, b, name="table"):
    return tables.table_engine(rep, name, b.tier)


def only_table(rep, b):
    table(rep, b)
    if rep.prop in big.MAKE:
        tables.table_engine(rep, "numbers", b.tier, big.rows(rep.prop, rep.seed, b.tier), big.evaluate, big.judge)


# Size of the quick check: executions at random, walks over contexts, skeletons (out
# of all of those of the property) whose behaviours are all generated and replayed, and
# sessions of several executions.
PLAN = {
    #      traces walks skeletons sessions
    "C01": (1200, 500, 1800, 100), "C02": (1200, 150, 2044, 0), "C03": (1200, 150, 2000, 0), "C04": (1200, 150, 252, 0),
    "C05": (1200, 200, 400, 0), "C06": (1200, 200, 150, 0), "C07": (1200, 200, 600, 0), "C08": (1200, 300, 400, 100),
    "C09": (1200, 200, 600, 0), "C10": (1200, 600, 120, 150), "C11": (1200, 200, 120, 120), "C12": (1200, 200, 200, 100),
    "C13": (1200, 150, 2500, 100), "C14": (1200, 250, 2500, 100), "C15": (1200, 0, 2500, 100), "C16": (1200, 0, 150, 350),
    "C18": (1500, 0, 1260, 0), "C22": (1000, 500, 200, 400), "C23": (1500, 0, 200, 0), "C24": (1500, 0, 150, 0),
}


def sessions(rep, b, quick, thorough=20000, name="sessions"):
    return engine.trace_engine(rep, name, b.n(quick, thorough), one_fn=session.session, deadline=b.deadline, chunk=500)


CORPUS = ("C01", "C02", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C14", "C15", "C22", "C24")


def scripts(rep, b, quick=30, thorough=3000, name="corpus"):
    return engine.trace_engine(rep, name, b.n(quick, thorough), one_fn=corpus.corpus, deadline=b.deadline, chunk=200)


def executions(prop):
    def f(rep, b):
        n, w, s, m = PLAN[prop]
        driver.Encoder.queries = prop == "C14"
        if prop == "C16":
            severity.severity_engine(rep, b.n(3, 4), b.n(1500, 100000))
        if s and not rep.violations:
            engine.gen_engine(rep, s if b.quick else None, deadline=b.t0 + 0.6 * (b.deadline - b.t0))
        if not rep.violations:
            traces(rep, b, n)
        if w and not rep.violations:
            walks(rep, b, w)
        if m and not rep.violations:
            sessions(rep, b, m)
        if prop in CORPUS and not rep.violations:
            scripts(rep, b)
    return f


CHECKS = {p: executions(p) for p in PLAN}
CHECKS.update({p: only_table for p in ("C17", "C19", "C20", "C21")})


def c25(rep, b):
    tops = [([0, 1, 2], 2, 1), ([0, 1, 1], 2, 1), ([0, 1], 2, 2)]
    if not b.quick:
        tops += [([0, 1, 2], 2, 2), ([0, 1, 2, 3], 1, 2), ([0, 1, 2, 2], 1, 2), ([0, 1], 3, 2)]
    stackmap.gen_engine(rep, tops)
    stackmap.trace_engine(rep, b.n(4000, 200000), deadline=b.deadline)


CHECKS["C25"] = c25


def c26(rep, b):
    tables.table_engine(rep, "names", b.tier, names.rows(random.Random(f"{rep.seed}:C26"), b.tier), names.evaluate, names.judge)


CHECKS["C26"] = c26
