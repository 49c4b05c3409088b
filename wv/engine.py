"""Trace validation: random scenarios are executed by the implementation, and every
recorded execution is checked against the specification by TLC."""

from __future__ import annotations

import json
import multiprocessing
import os
import random
import time

from . import driver, gens, skeletons, tables, tlc
from .lang import cps

WORKERS = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 8))))


def record(sc, seed):
    """Execute a scenario; returns (recorder, jumps)."""
    job = sc["job"]
    pol = driver.Policy(random.Random(f"{seed}:policy"), sc["policy"])
    obs = random.Random(f"{seed}:obs") if sc.get("observe") else None
    form = "str"
    if sc.get("forms"):
        form = random.Random(f"{seed}:form").choice(driver.forms_of(job.script))
        sc["form"] = form
    if sc["mode"] == "step":
        return driver.step_job(job, pol, random.Random(f"{seed}:jump"), sc.get("p_jump", 0.0), sc.get("jumps", 0), observe=obs,
                               form=form)
    return driver.run_job(job, pol, observe=obs, form=form), []


def one(args):
    """One recorded job in the format of the specification."""
    prop, seed, i = args
    key = f"{seed}:{prop}:{i}"
    rng = random.Random(key)
    sc = gens.GENS[prop](rng)
    if rng.random() < 0.03:
        sc = gens.large(prop, rng) or sc
    if i % 200 == 9:
        sc = gens.huge(prop, rng)
    sc["job"].manner = driver.manner(rng)
    if rng.random() < 0.2:
        sc["job"] = sc["job"].renamed(rng)
    if sc["mode"] == "step" and rng.random() < 0.4:
        sc["job"] = sc["job"].hoisted()
    rec, jumps = record(sc, key)
    j = sc["job"].to_json(i, rec.events, rw=sc.get("rw", False) or bool(jumps) or uses_rewind(sc) or sc.get("observe", False), jumps=jumps)
    j["script"] = sc["job"].script
    j["mode"] = sc["mode"] + (" from " + sc["form"] if "form" in sc else "")
    j["key"] = key
    if rng.random() < (0.3 if prop in ("C23", "C24") else 0.12) and len(j["script"]) <= LONG:
        j["source"] = True
    return j


def walk(args):
    """One recorded walk over the contexts of a job."""
    prop, seed, i = args
    key = f"{seed}:{prop}:walk:{i}"
    sc = gens.GENS[prop](random.Random(key))
    rng = random.Random(f"{key}:walk")
    sc["job"].manner = driver.manner(rng)
    job = sc["job"].renamed(rng) if rng.random() < 0.2 else sc["job"]
    job = job.hoisted() if rng.random() < 0.7 else job
    job.api = rng.choices(["run", "parts", "basic"], [10, 2, 1])[0]
    cfg = dict(sc["policy"], kinds=["raise", "abort"], p=rng.choice([0, 0, 0.05]), budget=3, error_p=0, calm=40)
    n = rng.choice([20, 40, 60])
    rec, ops = driver.walk_job(job, driver.Policy(random.Random(f"{key}:policy"), cfg), rng, n,
                               p_old=rng.choice([0.1, 0.3, 0.5]), p_until=rng.choice([0, 0.1, 0.3]))
    j = job.to_json(i, rec.events)
    for o in ops:
        o.setdefault("t", [])
    j["ops"] = ops
    j["script"], j["mode"], j["key"] = job.script, "walk", key
    if rng.random() < 0.1 and len(j["script"]) <= LONG:
        j["source"] = True
    return j


def uses_rewind(sc):
    return "rewind" in sc["policy"].get("kinds", [])


def pool():
    return multiprocessing.get_context("fork").Pool(WORKERS)


def run_all(p, fn, args, chunksize):
    """As p.map(), but gives up on the rest when the implementation keeps hanging."""
    out, hangs = [], 0
    for j in p.imap(fn, args, chunksize=chunksize):
        out.append(j)
        hangs += any(hang_of(x) == "cpu" for x in j) if isinstance(j, list) else hang_of(j) == "cpu"
        if hangs >= 6:
            break
    return out


LONG = 30000            # of its own statements, a longer text is not parsed again (quotes within quotes within quotes)
META = ("script", "mode", "key", "form", "session", "source", "again")
SOURCE_CFG = "SPECIFICATION Spec\nINVARIANT Judge\nCHECK_DEADLOCK FALSE\n"


def parsed(jobs):
    """The jobs that are to be judged from the text of their scripts on, with the programs
    that the specification of the grammar makes of them (all of the others as they are)."""
    texts, rows = {}, []
    for j in jobs:
        if "source" in j:
            row = {"src": cps(j["script"]), "names": j["names"], "execs": [{"t": e["t"], "b": 1 if e["b"] else 0} for e in j["execs"]]}
            k = json.dumps(row)
            if k not in texts:
                texts[k] = row["id"] = len(rows)
                rows.append(row)
            j["source"] = texts[k]
    if rows:
        got, _ = tlc.table("WSource", SOURCE_CFG, {"rows": rows, "words": tables.WORDS}, WORKERS)
    return [{**strip(j), **got[j["source"]]["p"]} if "source" in j else strip(j) for j in jobs]


def strip(j):
    return {k: v for k, v in j.items() if k not in META}


def hang_of(j):
    if "ops" in j:
        r = j["ops"][-1]["r"] if j["ops"] else {"k": ""}
        return r["n"] if r["k"] == "hang" else None
    e = j["events"][-1]
    return "".join(map(chr, e["a"][0][1:])) if e["k"] == "end" and e["n"] == "HANG" else None


def classify(j, v):
    """Final verdict on a recorded job: accept, reject, oos, long."""
    w = v["v"]
    if w == "fuel":
        return "long"
    if "ops" in j:
        return "long" if w == "reject" and hang_of(j) and v["at"] == len(j["ops"]) else w
    if w == "reject" and hang_of(j) == "too many callbacks" and v["at"] == len(j["events"]) \
            and v["want"] and v["want"][0]["k"] != "end":
        return "long"
    return w


WALK_CFG = """SPECIFICATION WSpec
INVARIANT Judge
PROPERTY Immutable
CHECK_DEADLOCK FALSE
"""
CFGS = {"WizardWalk": WALK_CFG}


def validate(jobs, module="WizardTrace", coverage=False):
    """As tlc.validate, but an execution on which TLC cannot even be evaluated (values
    of a shape that the specification knows nothing about) is a rejected one."""
    try:
        return tlc.validate(parsed(jobs), workers=WORKERS, module=module, coverage=coverage,
                            cfg=CFGS.get(module, tlc.TRACE_CFG))
    except tlc.TLCError as ex:
        if len(jobs) == 1:
            r = tlc.Result()
            r.distinct = r.states = 1
            return {jobs[0]["id"]: {"id": jobs[0]["id"], "v": "reject", "at": 0, "steps": 0,
                                    "want": ["the specification cannot judge this: " + str(ex)[-600:]]}}, r
        h = len(jobs) // 2
        v1, r1 = validate(jobs[:h], module, coverage)
        if any(x["v"] == "reject" for x in v1.values()):    # enough
            v1.update({j["id"]: {"id": j["id"], "v": "oos", "at": 0, "steps": 0, "want": []} for j in jobs[h:]})
            return v1, r1
        v2, r2 = validate(jobs[h:], module, coverage)
        v1.update(v2)
        r1.distinct += r2.distinct
        r1.states += r2.states
        return v1, r1


def show(j, v):
    """Readable description of a rejected execution."""
    at = v["at"]
    if "ops" in j:
        return show_walk(j, v)
    lines = [f"script ({j.get('mode', '')}, {j.get('key', '')}):"]
    lines += ["%3d  %s" % (i + 1, ln) for i, ln in enumerate(j["script"].splitlines())]
    if "session" in j:
        lines += ["session:"] + ["  " + x for x in j["session"]]
        lines.append("severities: " + json.dumps(j["hist"]) + f" runner {j['r']}")
    lines.append("callbacks:")
    for i, e in enumerate(j["events"][:at + 1] if at else j["events"]):
        r = j["plan"][i] if i < len(j["plan"]) else None
        if i >= max(0, at - 6):
            lines.append(f"  {i + 1}: {json.dumps(e)} answer {json.dumps(r)}")
    lines.append(f"rejected at {at}, the specification wants {json.dumps(v['want'])[:3000]}")
    return "\n".join(lines)


def show_walk(j, v):
    lines = [f"script (walk, {j['key']}):"]
    lines += ["%3d  %s" % (i + 1, ln) for i, ln in enumerate(j["script"].splitlines())]
    lines.append("operations (context, result):")
    n, h = 0, 1
    for i, o in enumerate(j["ops"][:v["at"]]):
        if o["r"]["k"] not in ("raise", "hang", "look"):
            h += 1
        what = o["u"] + " " + str(o["h"]) + (" " + ",".join(o["t"]) if o["u"] == "until" else "")
        if i >= v["at"] - 40:
            for e, p in zip(j["events"][n:o["n"]], j["plan"][n:o["n"]]):
                lines.append(f"      {json.dumps([e['k'], e['n'], e['a']])} answer {json.dumps(p)}")
            r = dict(o["r"])
            lines.append(f"  {i + 1}: {what} -> " + (f"context {h} " if r["k"] not in ("raise", "hang", "look") else "") + json.dumps(r))
        n = o["n"]
    lines.append(f"rejected at {v['at']}, the specification wants {json.dumps(v['want'])[:3000]}")
    return "\n".join(lines)


GEN_CFG = """SPECIFICATION Spec
INVARIANT Shown
INVARIANT EndConsistent
INVARIANT AskedOnce
INVARIANT SeenIsCurrent
INVARIANT Selections
INVARIANT Renames
INVARIANT Meaning
PROPERTY PastFixed
PROPERTY RewindExact
PROPERTY NoTrace
PROPERTY ErrorOnce
PROPERTY AbortAsks
PROPERTY Grow
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
"""

_SK = []


def gen_one(args):
    """The implementation on one generated behaviour."""
    i, b, seed, form = args
    job = _SK[b["id"]]
    src = driver.Plan(b["plan"])
    declined = any(a["h"] == 1 and a["r"] == "ret" for a in b["plan"])
    rng = random.Random(f"{seed}:{i}")
    job.manner = driver.manner(rng)
    step = not declined and rng.random() < 0.4
    obs = rng if rng.random() < 0.3 else None
    if step:
        rec, _ = driver.step_job(job, src, observe=obs, form=form)
    else:
        rec = driver.run_job(job, src, observe=obs, form=form)
    rw = obs is not None or any(a["r"] == "rewind" for a in b["plan"])
    j = job.to_json(i, rec.events, rw=rw)
    j["script"], j["mode"], j["key"] = job.script, ("step" if step else "run") + ("" if form == "str" else " from " + form), f"skeleton {b['id']}"
    return j


def gen_engine(rep, n=None, name="behaviours", prop=None, chunk=1000, deadline=None):
    """All behaviours of the skeletons of a property (or of a sample of n of them):
    generated and checked by TLC, then replayed on the implementation."""
    global _SK
    prop = prop or rep.prop
    sks, total = skeletons.family(prop, rep.seed, n)
    tot = dict(behaviours=0, done=0, fuel=0, oos=0, bad=0, accept=0, reject=0, long=0)
    stmts, ends = {}, {}
    gen_s = run_s = spec_s = 0.0
    done = gstates = 0
    for lo in range(0, len(sks), chunk):
        part = sks[lo:lo + chunk]
        _SK = [s.job() for s in part]
        data = []
        for i, (s, job) in enumerate(zip(part, _SK)):
            j = job.to_json(i, None, rw="rewind" in s.env["kinds"], fuel=1500)
            j["decl"] = s.decl
            data.append(j)
        t = time.time()
        r = tlc.with_data("WizardGen", GEN_CFG, data, workers=WORKERS)
        gen_s += time.time() - t
        if r.violated or "No error has been found" not in r.output:
            raise tlc.TLCError(f"a law fails on the specification ({r.violated}):\n" + r.output[-5000:])
        gstates += r.distinct
        rep.tlc(r)
        bs = r.prints
        for b in bs:
            tot["behaviours"] += 1
            tot[b["v"]] += 1
        bs = [b for b in bs if b["v"] == "done"]
        t = time.time()
        with pool() as p:
            tasks = [(b, f) for b in bs for f in (driver.forms_of(_SK[b["id"]].script) if prop == "C24" else ["str"])]
            jobs = run_all(p, gen_one, [(i, b, rep.seed, f) for i, (b, f) in enumerate(tasks)], 16)
        for (i, (b, f)), j in zip(enumerate(tasks), jobs):
            j["again"] = {"fn": "behaviour", "family": [prop, rep.seed, n], "index": lo + b["id"], "args": [i, b, rep.seed, f]}
        run_s += time.time() - t
        done += len(part)
        for k in range(0, len(jobs), 4000):
            some = jobs[k:k + 4000]
            t = time.time()
            v, r = validate(some)
            spec_s += time.time() - t
            rep.tlc(r)
            for j in some:
                w = classify(j, v[j["id"]])
                tot[w] += 1
                if j["events"][-1]["k"] == "end":
                    e = j["events"][-1]["n"]
                    ends[e] = ends.get(e, 0) + 1
                if w == "accept" and j["id"] % 97 == 5:
                    rep.sample({"engine": name, "key": j["key"], "script": j["script"], "plan": j["plan"][:20],
                                "end": j["events"][-1]["n"]})
                if w == "reject":
                    rep.violation({"property": rep.prop, "engine": name, "module": "WizardTrace", "key": j["key"],
                                   "job": j, "verdict": v[j["id"]], "summary": show(j, v[j["id"]])})
        if tot["reject"] or deadline and time.time() > deadline:
            break
    rep.traces += tot["accept"] + tot["reject"]
    rep.part(name, skeletons=done, of=total, behaviours=tot["behaviours"], replayed=tot["accept"] + tot["reject"],
             rejected=tot["reject"], out_of_scope=tot["oos"], too_long=tot["fuel"] + tot["long"], ends=ends,
             generated_states=gstates, generate_s=gen_s, record_s=run_s, tlc_s=spec_s)
    return tot


def trace_engine(rep, name, n, one_fn=one, module="WizardTrace", chunk=1500, deadline=None, first=0,
                 coverage=False, prop=None):
    """Record n executions with one_fn((prop, seed, i)) and judge them."""
    prop = prop or rep.prop
    kinds, ends = {}, {}
    tot = dict(jobs=0, accept=0, oos=0, long=0, reject=0, events=0)
    run_s = spec_s = 0.0
    i = first
    cov = {}
    with pool() as p:
        while i < first + n:
            m = min(chunk, first + n - i)
            t = time.time()
            jobs = run_all(p, one_fn, [(prop, rep.seed, k) for k in range(i, i + m)], 4)
            for k, j in enumerate(jobs):        # how to get it again
                for x in j if isinstance(j, list) else [j]:
                    x["again"] = {"fn": one_fn.__module__ + "." + one_fn.__name__, "args": [prop, rep.seed, i + k]}
            if jobs and isinstance(jobs[0], list):
                jobs = [j for js in jobs for j in js]
                for k, j in enumerate(jobs):
                    j["id"] = k
            run_s += time.time() - t
            t = time.time()
            v, r = validate(jobs, module, coverage)
            spec_s += time.time() - t
            rep.tlc(r)
            for a, k in r.coverage.items():
                cov[a] = cov.get(a, 0) + k
            for j in jobs:
                w = classify(j, v[j["id"]])
                tot["jobs"] += 1
                tot[w] += 1
                tot["events"] += len(j["events"])
                if "ops" in j:
                    for o in j["ops"]:
                        k = o["u"] + ":" + o["r"]["k"]
                        ends[k] = ends.get(k, 0) + 1
                for e in j["events"]:
                    k = e["n"] if e["k"] in ("prompt",) else e["k"]
                    if e["k"] == "end":
                        ends[e["n"]] = ends.get(e["n"], 0) + 1
                    else:
                        kinds[k] = kinds.get(k, 0) + 1
                if w == "accept" and "ops" in j and len(j["ops"]) > 10:
                    rep.sample({"engine": name, "key": j["key"], "script": j["script"],
                                "operations": [[o["u"], o["h"], o["r"]["k"]] for o in j["ops"][:40]]})
                elif w == "accept" and 4 < len(j["events"]) < 30:
                    rep.sample({"engine": name, "key": j["key"], "script": j["script"], "callbacks": len(j["events"]),
                                "end": j["events"][-1]["n"], "plan": j["plan"][:20]})
                if w == "reject":
                    rep.violation({"property": rep.prop, "engine": name, "module": module, "key": j["key"],
                                   "job": j, "verdict": v[j["id"]], "summary": show(j, v[j["id"]])})
            i += m
            if tot["reject"] or deadline and time.time() > deadline:
                break
    rep.traces += tot["accept"] + tot["reject"]
    rep.part(name, executions=tot["jobs"], accepted=tot["accept"], rejected=tot["reject"], out_of_scope=tot["oos"],
             too_long=tot["long"], callbacks=tot["events"], callbacks_by_kind=kinds, ends=ends,
             record_s=run_s, tlc_s=spec_s)
    if cov:
        rep.part(name, action_coverage=cov)
    return tot
