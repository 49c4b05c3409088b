"""The layered mapping (C25): histories generated by TLC replayed on the code, and long
random histories of all methods recorded from the code and judged by TLC."""

from __future__ import annotations

import random
import time

from . import engine, tlc
from .driver import cpu_limit

from wizard.utils.mappings import StackMutableMapping  # noqa: E402  (path set by driver)

GEN_CFG = """SPECIFICATION Spec
VIEW Abstract
INVARIANT LastWins
PROPERTY Isolation
CHECK_DEADLOCK FALSE
"""
TRACE_CFG = """SPECIFICATION Spec
INVARIANT Judge
CHECK_DEADLOCK FALSE
"""
KEYS = [None, "one", "", "three", "four", "five"]
# What the values 1, 2, ... of the specification stand for: a mapping has to treat all
# of them alike.
PALETTES = [[1, 2, 3, 4], [None, 0, "", 2], ["x", None, False, ()], [0, [], "one", None]]


def enc(v, pal):
    for i, x in enumerate(pal):
        if x is v or type(x) is type(v) and x == v:
            return i + 1
    return -7


def build(par):
    ls = [None]
    for p in par:
        ls.append(StackMutableMapping(ls[p]) if p else StackMutableMapping())
    return ls


MISSING = object()


def shown(layer, keys, pal):
    """What a layer shows, by every way of looking at it; -9 where they disagree."""
    ks = list(layer)
    out = []
    for k in range(1, keys + 1):
        x = KEYS[k]
        try:
            v = enc(layer[x], pal)
        except KeyError:
            v = 0
        g = layer.get(x, MISSING)
        ok = (x in layer) == (v != 0) and ks.count(x) == (1 if v else 0) and (g is MISSING if v == 0 else enc(g, pal) == v)
        out.append(v if ok else -9)
    if len(layer) != len([v for v in out if v]) or len(ks) != len(layer):
        out = [-8] * keys
    return out


def replay(par, keys, hist, pal):
    """Outcomes of the operations and the views afterwards."""
    ls = build(par)
    res = []
    for o, l, k, v, _ in hist:
        try:
            if o == "set":
                ls[l][KEYS[k]] = pal[v - 1]
            else:
                del ls[l][KEYS[k]]
            res.append("ok")
        except KeyError:
            res.append("KeyError")
        except Exception as ex:
            res.append(type(ex).__name__)
    return res, [shown(x, keys, pal) for x in ls[1:]]


def _replay(args):
    par, keys, h, pal = args
    try:
        return replay(par, keys, h, pal)
    except Exception as ex:
        return [type(ex).__name__ + ": " + str(ex)], []


def gen_engine(rep, topologies):
    """topologies: [(par, keys, vals)]"""
    for par, keys, vals in topologies:
        t = time.time()
        job = {"id": 0, "mode": "gen", "par": par, "keys": keys, "vals": vals, "events": []}
        r = tlc.with_data("WStackMap", GEN_CFG, [job], workers=engine.WORKERS)
        if r.violated:
            raise tlc.TLCError(r.output[-3000:])
        rep.tlc(r)
        spec_s = time.time() - t
        t = time.time()
        with engine.pool() as p:
            res = p.map(_replay, [(par, keys, x["h"], PALETTES[i % len(PALETTES)]) for i, x in enumerate(r.prints)], chunksize=500)
        bad = 0
        for x, (rs, views) in zip(r.prints, res):
            want = [h[4] for h in x["h"]]
            if rs != want or views != x["v"]:
                bad += 1
                rep.violation({"property": rep.prop, "engine": "generated histories", "key": f"{par} {x['h']}",
                               "par": par, "keys": keys, "history": x["h"], "want": [want, x["v"]], "got": [rs, views],
                               "summary": f"layers with parents {par}, operations {x['h']}: want {want} {x['v']}, got {rs} {views}"})
        rep.traces += len(res)
        longest = max(r.prints, key=lambda x: len(x["h"]))
        rep.sample({"engine": "generated histories", "parents": par, "history": longest["h"], "views": longest["v"]})
        rep.part("generated histories", histories=len(res), rejected=bad, tlc_s=spec_s, replay_s=time.time() - t,
                 longest={str(par): len(longest["h"])}, exhaustive=True)


OPS = ["set", "set", "set", "del", "del", "item", "get", "getd", "in", "len", "bool", "iter", "keys", "items", "values", "eq",
       "pop", "popd", "popitem", "setdefault", "update", "clear"]


def apply(ls, e, rng, pal):
    """Run one method; fills in r, rv, rs."""
    x, k, v = ls[e["l"]], KEYS[e["k"]] if e["k"] else None, pal[e["v"] - 1]
    en = lambda y: enc(y, pal)  # noqa: E731
    idx = {n: i for i, n in enumerate(KEYS)}
    o = e["o"]
    kvs = [(KEYS[a], pal[b - 1]) for a, b in e["kvs"]]
    if o == "set":
        x[k] = v
    elif o == "del":
        del x[k]
    elif o == "item":
        e["rv"] = en(x[k])
    elif o == "get":
        y = x.get(k)
        e["rv"] = 0 if y is None and k not in x else en(y)
    elif o == "getd":
        e["rv"] = en(x.get(k, v))
    elif o == "in":
        e["rv"] = int(k in x)
    elif o == "len":
        e["rv"] = len(x)
    elif o == "bool":
        e["rv"] = int(bool(x))
    elif o in ("iter", "keys"):
        e["rs"] = [idx.get(a, 99) for a in (x if o == "iter" else x.keys())]
    elif o == "items":
        e["rs"] = [[idx.get(a, 99), en(b)] for a, b in x.items()]
    elif o == "values":
        e["rs"] = [en(b) for b in x.values()]
    elif o == "eq":
        e["rv"] = int(x == dict(kvs))
    elif o == "pop":
        e["rv"] = en(x.pop(k))
    elif o == "popd":
        e["rv"] = en(x.pop(k, v))
    elif o == "popitem":
        a, b = x.popitem()
        e["rs"] = [[idx.get(a, 99), en(b)]]
    elif o == "setdefault":
        e["rv"] = en(x.setdefault(k, v))
    elif o == "update":
        f = rng.random()
        if f < 0.4:
            x.update(dict(kvs))
        elif f < 0.7:
            x.update(kvs)
        else:
            x.update(**dict(kvs))
    elif o == "clear":
        x.clear()


def one(args):
    prop, seed, i = args
    key = f"{seed}:{prop}:map:{i}"
    r = random.Random(key)
    par = [0]
    pal = r.choice(PALETTES)
    for n in range(r.randint(0, 5)):
        par.append(r.choice([0] + [len(par)] * 4 + list(range(1, len(par) + 1))))
    keys = r.randint(1, 5)
    ls = build(par)
    events = []
    try:
        with cpu_limit(5):
            for _ in range(r.randint(3, 60)):
                e = {"o": r.choice(OPS), "l": r.randint(1, len(par)), "k": r.randint(1, keys), "v": r.randint(1, 4),
                     "kvs": [], "r": "ok", "rv": 0, "rs": []}
                if e["o"] == "update" or e["o"] == "eq" and r.random() < 0.4:
                    e["kvs"] = [[k, r.randint(1, 4)] for k in r.sample(range(1, keys + 1), r.randint(0, keys))]
                elif e["o"] == "eq":      # mostly what it shows, or nearly so
                    e["kvs"] = [[k, v] for k, v in enumerate(shown(ls[e["l"]], keys, pal), 1) if v > 0]
                    if r.random() < 0.4 and e["kvs"]:
                        e["kvs"].pop()
                if e["o"] == "clear" and r.random() < 0.6:
                    continue
                events.append(e)
                try:
                    apply(ls, e, r, pal)
                except Exception as ex:
                    e["r"] = type(ex).__name__
    except BaseException as ex:
        if not events:
            events.append({"o": "none", "l": 1, "k": 1, "v": 0, "kvs": [], "rv": 0, "rs": []})
        events[-1]["r"] = type(ex).__name__
    return {"id": i, "mode": "trace", "par": par, "keys": keys, "vals": 4, "events": events, "key": key}


def trace_engine(rep, n, chunk=4000, deadline=None):
    done = 0
    while done < n:
        t = time.time()
        m = min(chunk, n - done)
        with engine.pool() as p:
            jobs = p.map(one, [(rep.prop, rep.seed, i) for i in range(done, done + m)], chunksize=50)
        rec = time.time() - t
        t = time.time()
        r = tlc.with_data("WStackMap", TRACE_CFG, [{k: v for k, v in j.items() if k != "key"} for j in jobs], workers=engine.WORKERS)
        v = {x["id"]: x for x in r.prints}
        rep.tlc(r)
        rej = 0
        ops = {}
        for j in jobs:
            for e in j["events"]:
                ops[e["o"]] = ops.get(e["o"], 0) + 1
            x = v.get(j["id"])
            if x is None:
                raise tlc.TLCError("no verdict\n" + r.output[-3000:])
            if x["v"] != "accept":
                rej += 1
                rep.violation({"property": rep.prop, "engine": "recorded histories", "key": j["key"], "job": j, "verdict": x,
                               "summary": f"layers with parents {j['par']}: after {j['events'][:x['at']]} the views should be {x['want']}"})
        rep.traces += len(jobs)
        rep.part("recorded histories", histories=len(jobs), rejected=rej, operations=ops, record_s=rec, tlc_s=time.time() - t)
        done += m
        if rej or deadline and time.time() > deadline:
            break
    rep.sample({"engine": "recorded histories", "parents": jobs[0]["par"], "events": jobs[0]["events"][:12]}, 5)
