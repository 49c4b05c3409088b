"""Several executions in one process: on the same runner one after the other, on
different runners, nested in each other's callbacks, and stepped by hand in turns;
severities are changed before, between and inside them, and scripts are started from
states that earlier ones left. Every execution is recorded on its own and has to be
what the specification says about it alone: its script, its answers, the packages of
its runner, and the history of the severities of its runner."""

from __future__ import annotations

import random

from . import driver, gens
from .driver import CPU_LIMIT, ISSUES, SEVERITIES, Hang, Held, Recorder, Stepper, cpu_limit


class SessionRunner(Stepper):
    stepping = False

    def current(self):
        return self.ctx if self.stepping else self.context()


class Execution:
    def __init__(self, session, runner, sc, mode, key):
        self.session, self.runner, self.sc, self.mode, self.key = session, runner, sc, mode, key
        self.state = "pending"
        self.hist = None
        self.gen = None
        self.ctx = None
        self.final = None
        self.depth = 0

    def begin(self):
        s = self.session
        self.hist = [dict(h, at=0) for h in s.log]
        job = self.sc["job"].on(self.runner.index, self.runner.pkgs_data, self.runner.fold, self.hist)
        initial = None
        if self.mode == "step" and s.rng.random() < 0.4:
            initial, job = s.chained(self.runner, job)
        job.manner = driver.manner(random.Random(f"{self.key}:manner"))
        pol = driver.Policy(random.Random(f"{self.key}:policy"), self.sc["policy"])
        self.rec = Recorder(job, pol, self.runner._verif_pkgs)
        self.rec.observe = random.Random(f"{self.key}:obs") if s.rng.random() < 0.5 else None
        if self.mode == "step":
            if initial is None:
                self.rec.start()
            else:
                self.rec.initial = initial
                self.rec.initial_held = Held(initial)
        self.rec.inside = self.in_callback
        self.job = job

    def in_callback(self):
        old, self.state = self.state, "callback"
        # somebody else may take over the runner meanwhile
        r = self.runner
        kept = r.rec, r.ctx, r.stepping
        self.session.act(self.depth + 1)
        r.rec, r.ctx, r.stepping = kept
        self.state = old

    def at(self):
        return len(self.rec.events) + (self.state == "callback")

    def finish(self, status, a, state):
        self.rec.inside = None
        self.rec.end(status, a, state)
        self.final = state
        self.state = "done"
        self.session.done.append(self)

    def guard(self, run):
        """Run something that ends the execution if it returns a result or raises."""
        try:
            with cpu_limit(CPU_LIMIT):
                res = run()
            if res is not None:
                status, state = res
                self.finish(status if isinstance(status, str) else status.name, [], state)
        except Hang as h:
            self.finish("HANG", [[3] + driver.cps(str(h))], None)
        except Exception as ex:
            driver.raised(self.finish, self.rec, ex, lambda: self.runner.current().state)

    def swapped(self, run):
        r = self.runner
        kept = r.rec, r.ctx, r.stepping
        r.rec, r.ctx, r.stepping = self.rec, self.ctx, self.mode == "step"
        try:
            self.guard(run)
        finally:
            self.ctx = r.ctx
            r.rec, r.ctx, r.stepping = kept

    def start(self, depth):
        self.begin()
        self.depth = depth
        self.session.active.append(self)
        if self.mode == "run":
            self.state = "running"
            self.swapped(lambda: self.runner.run(self.job.script))
        else:
            self.state = "suspended"
            rng, budget = random.Random(f"{self.key}:jump"), [self.sc.get("jumps", 0)]
            self.jumps = {}

            def jump(n):
                if not budget[0] or rng.random() >= self.sc.get("p_jump", 0.0):
                    return None
                budget[0] -= 1
                h = rng.randint(1, n)
                self.jumps[n] = h
                return self.rec.handles[h - 1]

            self.gen = self.runner.steps(self.job.script, self.rec.initial, jump)

    def advance(self, depth):
        """One step of an execution by hand."""
        self.depth = depth

        def one():
            try:
                next(self.gen)
            except StopIteration as ex:
                return ex.value

        self.state = "running"
        self.swapped(one)
        if self.state != "done":
            self.state = "suspended"

    def busy(self):
        return self.state in ("running", "callback", "suspended")


class Session:
    def __init__(self, rng, scs, key, sevs=0.5):
        self.rng, self.key = rng, key
        self.log = []           # what happened to the severities
        self.active, self.done, self.pending = [], [], []
        self.sevs = sevs
        self.story = []
        self.runners = []
        self.pools = []         # packages: (data, fold, shared object or None)
        self.scs = scs
        # inside which fraction of the callbacks something else happens
        self.nest = rng.choice([0, 0.05, 0.15, 0.4])
        for sc in scs[:rng.choice([1, 1, 2, 2, 3])]:
            j = sc["job"]
            self.pools.append((j.pkgs, j.fold, driver.make_pkgs(j) if rng.random() < 0.5 else None))
        for _ in range(rng.choice([1, 2, 2, 3])):
            self.new_runner()
        for k in range(rng.choice([2, 3, 4, 5])):
            sc = rng.choice(scs[:k + 1])
            declines = "decline" in sc["policy"].get("kinds", [])
            # only an execution by hand can start from another state
            mode = "run" if declines else "step" if sc["job"].init else rng.choice(["run", "step"])
            self.pending.append((sc, mode))

    def new_runner(self):
        data, fold, shared = self.rng.choice(self.pools)
        pkgs = shared
        if pkgs is None:
            pkgs = driver.SubPackages([driver.Pkg(n, fs) for n, fs in data])
        r = SessionRunner(pkgs)
        r._verif_pkgs, r.pkgs_data, r.fold = pkgs, data, fold
        self.runners.append(r)
        r.index = len(self.runners)
        return r

    # ------------------------------------------------------------ actions
    def severity(self):
        """Change a severity of a runner that nothing is under way on but callbacks."""
        rng = self.rng
        ok = [r for r in self.runners
              if all(x.state == "callback" for x in self.active if x.runner is r and x.busy())]
        if not ok:
            return False
        r = rng.choice(ok)
        i = rng.choice([0, 0, 1, 2, 2, 4, 5, 6])
        s = rng.choice([0, 0, 1, 1, 1, 2])
        if i:
            r.set_severity(ISSUES[i - 1], SEVERITIES[s])
        else:
            r.set_default_severity(SEVERITIES[s])
        h = {"r": r.index, "i": i, "s": s}
        self.log.append(h)
        self.story.append(f"severity of {i or 'default'} on runner {r.index}: {s}")
        for x in self.active:
            if x.busy():
                x.hist.append(dict(h, at=x.at()))
        return True

    def begin(self, depth):
        if not self.pending or depth > 3:
            return False
        rng = self.rng
        sc, mode = self.pending[-1]
        ok = [r for r in self.runners
              if mode == "step" or not any(x.mode == "run" and x.runner is r and x.busy() for x in self.active)]
        if rng.random() < 0.15 or not ok:
            ok = [self.new_runner()]
        self.pending.pop()
        r = rng.choice(ok)
        x = Execution(self, r, sc, mode, f"{self.key}:{len(self.pending)}")
        self.story.append(f"execution {len(self.pending)} ({mode}) on runner {r.index}"
                          + (f", inside {depth} callbacks" if depth else ""))
        x.number = len(self.pending)
        x.start(depth)
        self.story.append(f"execution {x.number} {x.state}")
        return True

    def advance(self, depth):
        ok = [x for x in self.active if x.state == "suspended"]
        if not ok or depth > 3:
            return False
        x = self.rng.choice(ok)
        for _ in range(self.rng.choice([1, 1, 3, 10])):
            if x.state == "suspended":
                x.advance(depth)
        return True

    def act(self, depth):
        """Something else inside a callback."""
        rng = self.rng
        while rng.random() < self.nest:
            y = rng.random()
            if y < self.sevs:
                self.severity()
            elif y < self.sevs + (1 - self.sevs) * 0.6:
                self.begin(depth)
            else:
                self.advance(depth)

    def run(self):
        rng = self.rng
        while True:
            if rng.random() < self.sevs * 0.5:
                self.severity()
            live = [x for x in self.active if x.state == "suspended"]
            if not self.pending and not live:
                break
            if self.pending and (not live or rng.random() < 0.15):
                self.begin(0)
            else:
                self.advance(0)

    # ------------------------------------------------- states of earlier executions
    def chained(self, runner, job):
        """A state that an execution with the same packages left or went through."""
        ok = [x for x in self.done if x.runner._verif_pkgs is runner._verif_pkgs and x.final is not None]
        if not ok:
            return None, job
        x = self.rng.choice(ok)
        state = x.final
        if x.rec.handles and self.rng.random() < 0.4:
            c = self.rng.choice(x.rec.handles)
            if c is None:
                return None, job
            state = c.state
        enc = x.rec.enc
        init = {n: enc.value(v.value) for n, v in state.variables.items()}
        s = enc.snap(state, [])
        if any(v[0] >= 90 for v in init.values()) or "[9" in str(s["td"]) + str(s["tm"]) or "-1" in str(s["ren"]) + str(s["notes"]):
            return None, job
        try:
            sp = [next(i + 1 for i, p in enumerate(runner._verif_pkgs) if p is q) for q in state.subpackages]
        except StopIteration:
            return None, job
        start = {"sp": sp, "pl": [driver.cps(p.name) for p in state.plugins], "ren": s["ren"], "notes": s["notes"],
                 "td": s["td"], "tm": s["tm"]}
        self.story.append(f"starting from a state of execution {x.number}")
        return state, job.starting(init, start)

    # ---------------------------------------------------------------- results
    def jobs(self):
        """The recorded executions, all looked at again now that everything is over."""
        out = []
        for x in self.done:
            e = x.rec.events[-1]["e"]
            if x.rec.observe is not None:
                e["o"] = x.rec.observations(True)
                if x.final is not None:
                    e["s"] = x.rec.enc.snap(x.final, x.rec.names)
            jumps = [x.jumps.get(i + 1, 0) for i in range(max(x.jumps, default=0))] if x.mode == "step" else []
            odd = "rewind" in x.sc["policy"].get("kinds", [])
            j = x.job.to_json(0, x.rec.events, rw=bool(jumps) or odd or x.rec.observe is not None, jumps=jumps)
            j["script"], j["mode"], j["key"], j["session"] = x.job.script, f"session {x.number} {x.mode}", self.key, self.story
            out.append(j)
        return out


SOURCES = {"C22": ["C22", "C22", "C10", "C12", "C14", "C13", "C18"], "C16": ["C16", "C16", "C16", "C06"]}


def session(args):
    """The recorded executions of one session."""
    prop, seed, i = args
    key = f"{seed}:{prop}:session:{i}"
    rng = random.Random(key)
    src = SOURCES.get(prop, [prop])
    p = rng.choice(src)
    scs = [gens.GENS[p if rng.random() < 0.7 else rng.choice(src)](rng) for _ in range(rng.choice([1, 2, 3]))]
    s = Session(rng, scs, key, sevs=0.6 if prop == "C16" else 0.3)
    s.run()
    return s.jobs()
