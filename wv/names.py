"""Names of sub-packages and plugins (C26)."""

from __future__ import annotations

import itertools
import operator

from . import tlc
from .driver import Pkg, cps

from wizard.value import Plugin, SubPackages  # noqa: E402

CMP = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]
OTHERS = [5, 0, None, 2.5, True, ["a"], b"a", ("a",)]
ALPHA = "aAbBzZ0 _-.éÉàÀßẞsSµμΣσςÿŸıİkKKĲŀĿжЖѓЃﬁfi"
CFG = "SPECIFICATION Spec\nINVARIANTS Judge Lawful\nCHECK_DEADLOCK FALSE\n"


def make(kind, name, other=0):
    if kind == "sub":
        return Pkg(name, [])
    if kind == "plug":
        return Plugin(name)
    if kind == "copy":       # a name taken over from another named object
        return Plugin(Pkg(name, []))
    return name if kind == "str" else OTHERS[other]


def compare(f, a, b):
    try:
        r = f(a, b)
        return int(r) if isinstance(r, bool) else 4
    except TypeError:
        return 2
    except Exception:
        return 3


def run(x):
    if x["kind"] == "pair":
        a, b = make(x["ak"], text(x["a"])), make(x["bk"], text(x["b"]), x.get("o", 0))
        h = 0
        if x["bk"] in ("sub", "plug", "copy"):
            h = int(hash(a) == hash(b))
            if not x_equal(x) and h:
                h = 0           # different names may still share a hash
        return {"ab": [compare(f, a, b) for f in CMP], "ba": [compare(f, b, a) for f in CMP], "h": h}
    if x["kind"] == "set":
        objs = [make(k, text(n)) for k, n in zip(x["kinds"], x["names"])]
        d = {}
        for i, o in enumerate(objs):
            d[o] = i + 1
        found = []
        for k, q in zip(x["qkinds"], x["queries"]):
            o = make(k, text(q))
            found.append({"in": int(o in objs), "count": objs.count(o), "index": objs.index(o) + 1 if o in objs else 0,
                          "value": (d.get(o, 0) if k != "str" else max([i + 1 for i, n in enumerate(objs) if n == o], default=0))})
        return {"distinct": len(set(objs)), "keys": [cps(str(o)) for o in d], "sorted": [cps(str(o)) for o in sorted(objs)], "found": found}
    p = Pkg(text(x["name"]), [text(f) for f in x["files"]])
    return {"name": cps(p.name), "plugins": [cps(str(q)) if isinstance(q, Plugin) else [-1] for q in p.plugins()],
            "is": [int(Pkg.is_plugin(text(f))) for f in x["files"]]}


def x_equal(x):
    return text(x["a"]).casefold() == text(x["b"]).casefold()


def text(c):
    return "".join(map(chr, c))


def spelling(r, s):
    """Another spelling of a name, or nearly so."""
    out = ""
    for c in s:
        f = r.random()
        if c in "ßẞ" and f < 0.5:
            out += r.choice(["ss", "SS", "ß", "ẞ", "Ss"])
        elif f < 0.4:
            out += c.upper() if len(c.upper()) == 1 else c
        elif f < 0.7:
            out += c.lower() if len(c.lower()) == 1 else c
        elif f < 0.97:
            out += c
        elif f < 0.985:
            out += r.choice(ALPHA)
    return out


def word(r):
    return "".join(r.choice(ALPHA) for _ in range(r.randint(0, 6)))


def rows(r, tier):
    out = []
    base = ["", "a", "A", "b", "B", "ab", "aB", "AB", "a b", "straße", "STRASSE", "Strasse", "é", "É", "e", "ς", "Σ", "Z", "_", "0"]
    for a, b in itertools.product(base, base):
        out.append({"kind": "pair", "a": cps(a), "b": cps(b), "ak": r.choice(["sub", "plug", "copy"]),
                    "bk": r.choice(["sub", "plug", "str", "copy"])})
    for ak in ("sub", "plug"):
        for o in range(len(OTHERS)):
            out.append({"kind": "pair", "a": cps("a"), "b": [], "ak": ak, "bk": "other", "o": o})
    for _ in range(6000 if tier == "quick" else 150000):
        a = word(r)
        b = spelling(r, a) if r.random() < 0.7 else word(r)
        out.append({"kind": "pair", "a": cps(a), "b": cps(b), "ak": r.choice(["sub", "plug", "copy"]),
                    "bk": r.choice(["sub", "plug", "str", "copy"])})
    for _ in range(3000 if tier == "quick" else 60000):
        pool = [word(r) for _ in range(r.randint(1, 4))]
        names = [spelling(r, r.choice(pool)) for _ in range(r.randint(0, 7))]
        qs = [spelling(r, r.choice(pool)) for _ in range(3)]
        k = r.choice([["sub"], ["plug"], ["sub", "plug", "copy"]])
        out.append({"kind": "set", "names": [cps(n) for n in names], "kinds": [r.choice(k) for _ in names],
                    "queries": [cps(q) for q in qs], "qkinds": [r.choice(["sub", "plug", "str"]) for _ in qs]})
    ext = [".esp", ".esm", ".esl", ".esp", ".bsa", ".txt", ".esp.bak", "", ".es", ".esx", "esp", ".ESPx"]
    for _ in range(1500 if tier == "quick" else 20000):
        fs = []
        for _ in range(r.randint(0, 6)):
            f = "/".join(["".join(r.choice("aB é.") for _ in range(r.randint(1, 3))).strip() or "x" for _ in range(r.choice([0, 0, 1, 1, 2]))] + ["m" + r.choice("aBé9") + r.choice(ext)])
            if r.random() < 0.3:      # names with several dots, folders called like plugins
                f = r.choice(["a.v2.esp", "x.esp.esm", "m.1.2.esl", "dir.esp/y.esm", "v1.0/m.esp", "Mod v1.0.esp", ".esp", "d.esm/.esl",
                              "a b.c d.esp", "d.esl/t.txt", "..esp", "x.esp/a.esp.esp", "x. esp", " .esp", "a.esp ", "esp/esm.esl"])
            fs.append(f)
        n = word(r)
        out.append({"kind": "pkg", "name": cps(n), "files": [cps(f) for f in fs]})
    for i, x in enumerate(out):
        x["script"] = str(i) + ":" + x["kind"] + ":" + repr({k: ([text(t) for t in v] if k in ("names", "files", "queries") else text(v) if k in ("a", "b", "name") else v)
                                                            for k, v in x.items() if k != "kind"})
    return out


def evaluate(rows_):
    out = []
    for x in rows_:
        try:
            o = run(x)
        except Exception as ex:
            o = {"exception": type(ex).__name__}
        o["k"] = x["kind"]
        out.append(o)
    return out


def judge(rows_, workers):
    data = {"rows": [{**{k: v for k, v in x.items() if k not in ("script", "out")},
                      "out": {k: v for k, v in x["out"].items() if k != "k"}} for x in rows_]}
    return tlc.table("WNames", CFG, data, workers)
