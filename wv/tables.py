"""Expressions whose value is recorded from the implementation and compared with the
specification of operators, functions, grammar and literals (C17, C19, C20, C21)."""

from __future__ import annotations

import itertools
import json
import os
import random
import tempfile

from . import driver, tlc
from .driver import Encoder, Hang, Plan, Recorder, cpu_limit
from .lang import BIN, COMP, SUBS, bi, call, cps, lit, meth, ren, ren0, safe, slc, sev_hist, txt, un, Job, walk_expr

PKGS = [("Main", ["a.esp", "Data/b.esm", "Readme.TXT"]), ("Opt É", ["c.esp"]), ("aB", [])]
SUB = [bi("idx", SUBS, lit(i)) for i in range(3)]
VOID = call("DisableINILine", lit("f"), lit("s"), lit("t"))


WORDS = [{"t": cps(w), "n": w} for w in (
    "If Elif Else EndIf For EndFor from to by in While EndWhile SelectOne SelectMany EndSelect Case Default Break Continue Cancel "
    "Return or and not True False SubPackages Exec EndExec "
    "str int float len lower startswith endswith find rfind "
    "CompareGameVersion CompareSEVersion CompareGEVersion CompareWBVersion GetPluginLoadOrder GetPluginStatus GetEspmStatus "
    "GetFilename GetFolder DataFileExists EditINI DisableINILine "
    "DeSelectAll DeSelectAllPlugins DeSelectAllEspms DeSelectPlugin DeSelectEspm DeSelectSubPackage Note RenamePlugin RenameEspm "
    "RequireVersions ResetPluginName ResetEspmName ResetAllPluginNames ResetAllEspmNames SelectAll SelectAllPlugins SelectAllEspms "
    "SelectPlugin SelectEspm SelectSubPackage").split()]
WORDS = [[w for w in WORDS if len(w["t"]) == n] for n in range(1, max(len(w["t"]) for w in WORDS) + 1)]


def num(n):
    return lit(n) if n >= 0 else un("neg", lit(-n))


BOOLS = [lit(True), lit(False)]
INTV = [num(n) for n in (-7, -2, -1, 0, 1, 2, 3, 10, 255)]
FLOATV = [num(x) for x in (-1.5, -0.5, 0.0, 0.5, 1.0, 2.0, 2.25)]
TEXTV = [lit(s) for s in ("", "a", "A", "b", "ab", "AB", "aB", "é", "É", "10", "2", "Main", "main", "a.esp",
                           "ß", "SS", "ſ", "S", "ς", "σ", "Σ", "ﬁ", "K")]
OTHERV = [SUBS, *SUB, VOID]
VALUES = BOOLS + INTV + FLOATV + TEXTV + OTHERV
BINOPS = ["add", "sub", "mul", "div", "mod", "pow", "and", "or", "eq", "ne", "lt", "le", "gt", "ge",
          "eqi", "nei", "lti", "lei", "gti", "gei", "in", "ini", "idx"]


class Bench:
    """One runner evaluating many expressions."""

    def __init__(self, pkgs=PKGS):
        self.pkgs = pkgs
        self.job = Job([], pkgs, sev=[0] * 6)
        self.runner = driver.new_runner(self.job)
        self.enc = Encoder(self.runner._verif_pkgs)

    def run(self, script, x="x"):
        rec = Recorder(self.job, Catch(), self.runner._verif_pkgs)
        self.runner.attach(rec, self.job.sev)
        try:
            with cpu_limit(driver.CPU_LIMIT):
                status, state = self.runner.run(script)
        except Hang:
            return {"k": "hang", "v": []}
        except Exception as ex:
            return {"k": "escaped:" + type(ex).__name__, "v": []}
        if rec.source.error is not None:
            cls, a = rec.source.error
            return {"k": cls, "v": a[1]}
        vs = state.variables
        if status.name != "COMPLETE" or x not in vs:
            return {"k": "status:" + status.name, "v": []}
        return {"k": "v", "v": self.enc.value(vs[x].value)}


class Catch:
    """Answers for expressions: nothing is expected but an error."""

    def __init__(self):
        self.error = None

    def answer(self, ev):
        if ev["k"] == "error":
            self.error = (ev["n"], ev["a"])
        if ev["k"] in ("complete", "cancel"):
            return {"r": "ret", "v": [0, 1], "h": 0}
        return {"r": "ret", "v": [4], "h": 0}


def flat(e):
    """Expression without variables for the specification."""
    op = e["op"]
    if op == "lit":
        return {"op": op, "v": e["v"]}
    r = {"op": op, "k": [flat(c) for c in e["k"]]}
    if op in ("call", "meth"):
        r["n"] = e["n"]
        r["t"] = cps(e["n"])
    if op == "slice":
        r["h"] = e["h"]
    return r


def script_of(e, form):
    """Scripts storing the value of e in x."""
    op = e["op"]
    if form == 1 and op in BIN or form == 1 and op in ("in", "ini", "idx"):
        a, b = e["k"]
        p, q = {"op": "var", "x": "p"}, {"op": "var", "x": "q"}
        return f"p = {safe(a)}\nq = {safe(b)}\nx = {ren0(bi(op, p, q))}\n"
    if form == 2 and op in COMP:
        a, b = e["k"]
        return f"x = {safe(a)}\nx {COMP[op]} {safe(b)}\n"
    if form == 1 and op in ("neg", "not"):
        return f"p = {safe(e['k'][0])}\nx = {ren0(un(op, {'op': 'var', 'x': 'p'}))}\n"
    if form == 3:
        return f"If {safe(e)}\n    x = True\nElse\n    x = False\nEndIf\n"
    if form == 4:
        return f"x = False\nWhile {safe(e)}\n    x = True\n    Break\nEndWhile\n"
    if form == 5:
        return f"x = not (not {safe(e)})\n"
    return f"x = {safe(e)}\n"


def row(e, form=0):
    return {"e": flat(e), "truth": form in (3, 4, 5), "script": script_of(e, form)}


# --------------------------------------------------------------------- C17
def rows_C17(r, tier):
    out = []
    for op in BINOPS:
        for a, b in itertools.product(VALUES, VALUES):
            e = bi(op, a, b)
            out.append(row(e, r.choice([0, 1, 2] if op in COMP else [0, 1])))
    for v in VALUES + [lit("0"), lit("False"), lit(" ")]:
        out.append(row(v))
        for f in (3, 4, 5):
            out.append(row(v, f))
        for op in ("neg", "not"):
            out.append(row(un(op, v)))
            out.append(row(un(op, v), 1))
    n = 12000 if tier == "quick" else 60000
    for _ in range(n):
        op = r.choice(BINOPS[:20])
        k = r.random()
        if k < 0.5:
            a, b = num(r.randint(-3000, 3000)), num(r.randint(-60, 60) or 1)
        elif k < 0.75:
            a, b = num(r.randint(-800, 800) / r.choice([1, 2, 4, 8])), num(r.randint(-64, 64) / r.choice([1, 2, 4]) or 1.0)
        else:
            s = lambda: lit("".join(r.choice("aAbBzZ é É019_-ßſσς") for _ in range(r.randint(0, 4))))  # noqa: E731
            a, b = s(), s()
        out.append(row(bi(op, a, b), r.choice([0, 1, 2] if op in COMP else [0, 1])))
    return out


# --------------------------------------------------------------------- C19
def rows_C19(r, tier):
    out = []
    texts = ["", "a", "abc", "héllo wörld", "aXbXa", "Main"]
    for s in texts:
        for i in [num(n) for n in range(-5, 6)] + [lit(True), lit(False), lit("1"), lit(1.0), SUBS]:
            out.append(row(bi("idx", lit(s), i), r.choice([0, 1])))
    for c in [SUBS, *SUB, lit(3), lit(True), VOID, lit(1.5)]:
        for i in [num(n) for n in range(-5, 6)] + [lit(True), lit("a"), lit(0.0)]:
            out.append(row(bi("idx", c, i), r.choice([0, 1])))
    bounds = [None] + [num(n) for n in (-9, -3, -1, 0, 1, 2, 4, 9)]
    steps = [None] + [num(n) for n in (-2, -1, 1, 2, 3)]
    for s in ["", "a", "abcdefg", "héllo"]:
        for a, b, k in itertools.product(bounds, bounds, steps):
            out.append(row(slc(lit(s), a, b, k, colon2=r.random() < 0.3)))
    for s in [lit("abcd"), lit(5), SUBS, SUB[0]]:
        for _ in range(12):
            pick = lambda: r.choice([None, lit(1), lit("x"), lit(1.0), lit(True), lit(False)])  # noqa: E731
            out.append(row(slc(s, pick(), pick(), pick())))
    items = [lit(s) for s in ("Main", "main", "MAIN", "aB", "ab", "Opt É", "opt é", "", "a.esp", "A.ESP", "b.esm", "Data/b.esm",
                              "data/B.esm", "readme.txt", "Readme.TXT", "c.esp")] + [*SUB, SUBS, lit(1), VOID, lit(True)]
    for op in ("in", "ini"):
        for a, c in itertools.product(items, [SUBS, *SUB, lit("Main"), lit(1)]):
            out.append(row(bi(op, a, c), r.choice([0, 1])))
    args1 = VALUES + [lit(s) for s in ("12", " 12 ", "-3", "+4", "1.5", "-2.25", " .5", "007", "Hello World", "ÀÉ", "True")] + \
        [num(12.75), num(-12.75), num(-100), num(64.0)]
    fns = ["str", "int", "float", "len", "lower", "startswith", "endswith", "find", "rfind"]
    for f in fns:
        out.append(row(call(f)))
        for v in args1:
            out.append(row(call(f, v)))
            out.append(row(meth(v, f)))
        for a, b in itertools.product([lit("abc"), lit(""), lit("Abab"), lit(3), SUB[0], VOID], [lit("a"), lit(""), lit("bc"), lit("ab"), lit(1), lit(True), lit(0.5)]):
            out.append(row(call(f, a, b)))
            out.append(row(meth(a, f, b)))
    subs = ["", "a", "ab", "ba", "x", "abab", "É"]
    for f in ("find", "rfind"):
        for s in ("", "ababab", "aaa", "bÉab"):
            for u in subs:
                for a in [None] + [num(n) for n in (-9, -2, -1, 0, 1, 3, 9)]:
                    for b in [None] + [num(n) for n in (-9, -2, -1, 0, 1, 4, 9)]:
                        if a is None and b is not None:
                            continue
                        k = [x for x in (lit(u), a, b) if x is not None]
                        out.append(row(meth(lit(s), f, *k) if r.random() < 0.5 else call(f, lit(s), *k)))
        for k in ([lit("a"), lit("0")], [lit("a"), lit(0.0)], [lit("a"), lit(True), lit(True)], [lit("a"), lit(0), lit("b")],
                  [lit("a"), lit(0), lit(1), lit(2)], [lit(1), lit(0)]):
            out.append(row(call(f, lit("ababa"), *k)))
            out.append(row(meth(lit("ababa"), f, *k)))
    for f in ("startswith", "endswith"):
        for s in ("", "abc.esp", "ABC", "É.esp"):
            for n in range(0, 5):
                for _ in range(8):
                    k = [r.choice([lit("a"), lit("abc"), lit(".esp"), lit("C"), lit(""), lit("É"), lit("x"), lit(1), lit(True), SUB[0]])
                         for _ in range(n)]
                    out.append(row(call(f, lit(s), *k)))
                    out.append(row(meth(lit(s), f, *k)))
    for f in fns:
        for v in (lit("x"), lit(1), lit(2.5), lit(True), SUBS, SUB[0], VOID):
            out.append(row(call(f, v, lit("a"), lit("b"))))
            out.append(row(call(f, v, lit("a"), lit(1), lit(2), lit(3))))
            out.append(row(meth(v, f, lit("a"), lit(1), lit(2))))
    n = 8000 if tier == "quick" else 40000
    for _ in range(n):
        s = "".join(r.choice("abcABé .") for _ in range(r.randint(0, 8)))
        u = "".join(r.choice("abB.") for _ in range(r.randint(0, 2)))
        i = lambda: num(r.randint(-10, 10))  # noqa: E731
        o = lambda: r.choice([None, i()])  # noqa: E731
        k = r.random()
        if k < 0.3:
            e = slc(lit(s), o(), o(), r.choice([None, num(r.choice([-3, -2, -1, 1, 2, 3]))]))
        elif k < 0.5:
            e = bi("idx", lit(s), i())
        elif k < 0.8:
            a = [lit(u)] + ([i()] if r.random() < 0.7 else [])
            if len(a) == 2 and r.random() < 0.6:
                a.append(i())
            e = meth(lit(s), r.choice(["find", "rfind"]), *a)
        elif k < 0.9:
            e = meth(lit(s), r.choice(["startswith", "endswith"]), *[lit(s[:2]) if r.random() < 0.3 else lit(u) for _ in range(r.randint(1, 3))])
        else:
            e = bi("add", call("str", num(r.randint(-9999, 9999) / r.choice([1, 2, 4, 8, 1]))), call("lower", lit(s)))
        out.append(row(e))
    return out


# --------------------------------------------------------------------- C20
SYM = {"add": ["+"], "sub": ["-"], "mul": ["*"], "div": ["/"], "mod": ["%"], "pow": ["^"], "and": ["and", "&"], "or": ["or", "|"],
       "eq": ["=="], "ne": ["!="], "lt": ["<"], "le": ["<="], "gt": [">"], "ge": [">="], "eqi": ["==:"], "nei": ["!=:"],
       "lti": ["<:"], "lei": ["<=:"], "gti": [">:"], "gei": [">=:"], "in": ["in"]}


def tok(t, s, **k):
    return dict(t=t, s=s, **k)


def operand(r, kind):
    if kind == "i":
        v = r.choice([0, 1, 2, 3, 4, 5, 7])
        return tok("v", str(v), e={"op": "lit", "v": [1, v]})
    if kind == "b":
        v = r.random() < 0.5
        return tok("v", str(v), e={"op": "lit", "v": [0, int(v)]})
    if kind == "f":
        v = r.choice([0.5, 1.5, 2.0])
        p, q = v.as_integer_ratio()
        return tok("v", repr(v), e={"op": "lit", "v": [2, p, q]})
    if kind == "S":
        return tok("v", "SubPackages", e={"op": "lit", "v": [5]})
    s = r.choice(["a", "B", "Main", "ab", "12", "Op"])
    return tok("v", '"' + s + '"', e={"op": "lit", "v": [3] + cps(s)})


def bin_tok(r, o):
    return tok("bin", r.choice(SYM[o]), o=o)


def toks_text(ts, r):
    out = ""
    for t in ts:
        sp = "" if (t["t"] in ("dot", "[", "]") or out.endswith(("[", "(")) or t["t"] == ")") and r.random() < 0.8 else " "
        if t["t"] == "not" and t["s"] == "!" or t["t"] == "neg":
            out += " " + t["s"]
        elif out and out[-1:] in "!-" and t["t"] in ("v", "(") and not out.endswith("--"):
            out += t["s"] if r.random() < 0.5 else " " + t["s"]
        else:
            out += sp + t["s"]
    return out.strip()


def seq(r, depth, n=None, kind="i"):
    """A flat sequence of operands and operators with a few parentheses."""
    ts = []
    n = n if n is not None else r.randint(1, 5)
    ar = ["add", "sub", "mul", "div", "mod", "pow", "add", "sub", "mul", "pow"]
    lo = ["and", "or", "eq", "ne", "lt", "le", "gt", "ge"]
    for i in range(n):
        if i:
            if kind == "i":
                o = r.choice(ar if r.random() < 0.6 else lo)
            else:
                o = r.choice(["add", "add", "eq", "ne", "lt", "gt", "ge", "le", "and", "or", "eqi", "nei", "gti", "lei", "lti", "gei", "in"])
            ts.append(bin_tok(r, o))
        while r.random() < 0.2:
            ts.append(r.choice([tok("neg", "-"), tok("not", r.choice(["not", "!"]))]) if kind == "i" or r.random() < 0.1 else
                      tok("not", r.choice(["not", "!"])))
        # '- -' would be read as a decrement
        if depth and r.random() < 0.15:
            ts += [tok("(", "(")] + seq(r, depth - 1, None, kind) + [tok(")", ")")]
        elif kind == "i":
            x = r.random()
            if x < 0.1 and ts and ts[-1]["t"] != "neg":
                ts += [operand(r, "s"), tok("dot", ".len()", n="len", k=[])]
            elif x < 0.16:
                ts += [operand(r, "i"), tok("dot", ".str()", n="str", k=[])]
                ts += [tok("dot", ".len()", n="len", k=[])]
            else:
                ts.append(operand(r, "i" if x < 0.8 else "b" if x < 0.95 else "f"))
        else:
            ts.append(operand(r, "s" if ts[-1:] == [] or ts[-1].get("o") != "in" else "S"))
            x = r.random()
            if ts[-1]["s"] != "SubPackages":
                if x < 0.15:
                    ts.append(tok("dot", ".lower()", n="lower", k=[]))
                elif x < 0.3:
                    ts += [tok("[", "[")] + seq(r, 0, r.choice([1, 2]), "i") + [tok("]", "]")]
                elif x < 0.4:
                    ts += [tok("[", "["), operand(r, "i"), tok(":", ":"), operand(r, "i"), tok("]", "]")]
                elif x < 0.45:
                    ts += [tok("[", "["), tok(":", ":"), tok(":", ":"), tok("neg", "-"), tok("v", "1", e={"op": "lit", "v": [1, 1]}), tok("]", "]")]
            elif x < 0.2:
                ts += [tok("[", "["), tok("v", "0", e={"op": "lit", "v": [1, 0]}), tok("]", "]")]
    return ts


def rows_C20(r, tier):
    out = []

    def add(ts):
        for a, b in zip(ts, ts[1:]):
            if a["t"] == "neg" and b["t"] == "neg":
                return  # written together they are a decrement
        s = toks_text(ts, r)
        out.append({"src": cps(s), "truth": False, "script": "x = " + s + "\n"})

    nums = ["add", "sub", "mul", "div", "mod", "pow", "and", "or", "eq", "ne", "lt", "le", "gt", "ge"]
    I = lambda v: tok("v", str(v), e={"op": "lit", "v": [1, v]})  # noqa: E731
    trip = [(7, 2, 3), (2, 3, 2), (1, 0, 5), (0, 4, 1), (3, 3, 3), (5, 2, 0)]
    for o1, o2 in itertools.product(nums, nums):
        for a, b, c in trip:
            add([I(a), bin_tok(r, o1), I(b), bin_tok(r, o2), I(c)])
            if r.random() < 0.3:
                add([tok("(", "("), I(a), bin_tok(r, o1), I(b), tok(")", ")"), bin_tok(r, o2), I(c)])
                add([I(a), bin_tok(r, o1), tok("(", "("), I(b), bin_tok(r, o2), I(c), tok(")", ")")])
    for o in nums:
        for u in (tok("neg", "-"), tok("not", "not"), tok("not", "!")):
            for a, b in ((2, 3), (0, 0), (3, 2), (1, 1), (0, 2)):
                add([u, I(a), bin_tok(r, o), I(b)])
                add([I(a), bin_tok(r, o), u, I(b)])
                add([tok("not", "not"), tok("neg", "-"), I(a), bin_tok(r, o), I(b)])
    S = lambda s: tok("v", '"' + s + '"', e={"op": "lit", "v": [3] + cps(s)})  # noqa: E731
    strs = ["add", "and", "or", "eq", "ne", "lt", "le", "gt", "ge", "eqi", "nei", "lti", "lei", "gti", "gei"]
    for o1, o2 in itertools.product(strs, strs):
        for a, b, c in (("a", "A", "b"), ("ab", "a", "b"), ("", "x", "X")):
            add([S(a), bin_tok(r, o1), S(b), bin_tok(r, o2), S(c)])
    SP = tok("v", "SubPackages", e={"op": "lit", "v": [5]})
    for o in strs:
        for a, b in (("Ma", "in"), ("Main", "Main"), ("", "Main"), ("a", "B")):
            add([S(a), bin_tok(r, o), S(b), bin_tok(r, "in"), SP])
            add([S(b), bin_tok(r, "in"), SP, bin_tok(r, o), S(a)])
            add([S(a), bin_tok(r, o), S(b.upper()), bin_tok(r, "in"), SP, tok(":", ":")])
    for op in nums + strs:
        for a, b in (("abc", "cde"), ("a", "")):
            add([S(a), bin_tok(r, op), S(b), tok("[", "["), I(0), tok("]", "]")])
            add([S(a), bin_tok(r, op), S(b), tok("[", "["), I(0), tok(":", ":"), I(1), tok("]", "]")])
            add([S(a), bin_tok(r, op), S(b), tok("dot", ".len()", n="len", k=[])])
            add([S(a), tok("dot", ".lower()", n="lower", k=[]), bin_tok(r, op), S(b)])
    add([tok("neg", "-"), S("ab"), tok("dot", ".len()", n="len", k=[])])
    add([tok("not", "not"), S("ab"), tok("[", "["), I(0), tok("]", "]")])
    add([tok("not", "not"), S("ab"), tok("[", "["), I(0), tok(":", ":"), I(0), tok("]", "]")])
    add([tok("neg", "-"), S("12"), tok("[", "["), I(0), tok("]", "]"), tok("dot", ".len()", n="len", k=[])])
    n = 20000 if tier == "quick" else 120000
    for _ in range(n):
        add(seq(r, 2, None, r.choice(["i", "i", "i", "s"])))
    return out


# --------------------------------------------------------------------- C21
PIECES = ["a", "B", " ", "é", "ß", "Ω", "世", "😀", "\u00a0", "\u2028", "\x85", "\x7f", "0", "9", "x", "u", "U", "n", ";", "; no", "|",
          "/", "//", "{", "%s", "+", "EndIf", "x = 1"]
ESCAPES = ["\\a", "\\b", "\\f", "\\n", "\\r", "\\t", "\\\\", "\\'", '\\"', "\\x41", "\\xe9", "\\xC9", "\\x00", "\\x0a", "\\u0041",
           "\\u00e9", "\\u4e16", "\\u2028", "\\U0001F600", "\\U000000e9", "\\0", "\\7", "\\12", "\\08", "\\101", "\\377", "\\1010", "\\18",
           "\\x414", "\\u00410", "\\q", "\\z", "\\-", "\\;", "\\ ", "\\é", "\\😀", "\\世", "\\N", "\\X", "\\A", "\\8", "\\9", "\\$", "\\%"]
COMMENTS = ["", " comment", " x = 5", ' "quoted', " it's", " \\", " \\n \\", "; ;", " EndIf", " é 世", "\\x", " ''", ' "" \\']


def literal(r, n=None):
    """A string literal, as text."""
    q = r.choice("'\"")
    out = ""
    for _ in range(n if n is not None else r.randint(0, 6)):
        k = r.random()
        if k < 0.45:
            out += r.choice(ESCAPES)
        elif k < 0.55:
            out += "'" if q == '"' else '"'
        else:
            out += r.choice(PIECES)
    return q + out + q


def number(r):
    k = r.random()
    if k < 0.4:
        return r.choice(["0", "1", "007", "10", "00", "123456", "999999999", "42", str(r.randint(0, 99999))])
    if k < 0.9:
        f = r.choice([1, 2, 4, 8, 16])
        return r.choice(["", "", "0"]) + repr(r.randint(0, 900) / f) + r.choice(["", "", "0", "00"])
    return r.choice(["0.0", "0.50", "00.5", "1.0", "10.25", "1.000"])


def gap(r, need=False):
    """What may stand between two tokens."""
    k = r.random()
    if k < 0.5:
        return " " if need or r.random() < 0.5 else ""
    out = r.choice([" ", "\t", "  ", " \t "])
    for _ in range(r.choice([1, 1, 2])):
        out += r.choice(["\\\n", "\\\r\n", "\\ \t\n", "\\ \r\n", "\n", "\r\n", "\n\n", ";" + r.choice(COMMENTS) + "\n",
                         ";" + r.choice(COMMENTS) + "\r\n", "\\\n;" + r.choice(COMMENTS) + "\n"])
        out += r.choice(["", " ", "\t"])
    return out


def lexical_script(r):
    """One or two assignments of literals and small expressions with comments, continuations and spacing everywhere."""
    def operand():
        k = r.random()
        return literal(r) if k < 0.5 else number(r) if k < 0.8 else r.choice(["True", "False", "(" + number(r) + ")"])

    def expr():
        k = r.random()
        if k < 0.45:
            return [operand()]
        if k < 0.6:
            return [literal(r), "+", literal(r)]
        if k < 0.7:
            return [number(r), r.choice(["+", "-", "*"]), number(r)]
        if k < 0.78:
            return [operand(), r.choice(["==", "!=", "and", "&", "or", "|"]), operand()]
        if k < 0.84:
            return [literal(r), r.choice(["==", "!=", "<", "<=", ">", ">="]), ":", literal(r)]
        if k < 0.9:
            return [literal(r), ".", r.choice(["len", "lower"]), "(", ")"]
        if k < 0.95:
            return ["len", "(", literal(r), ")"]
        return [r.choice(["not", "!"]), operand()]
    toks = []
    for v in (["x", "y"][r.randint(0, 1):] if r.random() < 0.3 else [])[:1] + ["x"]:
        toks += [v, "="] + expr() + ["\n"]
    out = gap(r)
    for a, b in zip(toks, toks[1:] + [""]):
        word = lambda s: s[:1].isalnum() or s[-1:].isalnum()  # noqa: E731
        if a == "\n":
            out += r.choice(["\n", "\r\n", " ; the end\n", "\n\n", ";\n"])
        elif b == "\n":
            out += a + r.choice(["", "", " ", "\t"])
        else:
            g = gap(r, word(a) and word(b))
            if b == ":" or (a in "<>=!" and b in "=:"):
                g = r.choice(["", "", " "])
            out += a + g
    return out


def rows_C21(r, tier):
    out = []

    def add(s):
        out.append({"parse": True, "truth": False, "script": s})

    for p in PIECES + ESCAPES:
        for q in "'\"":
            for s in (p, "a" + p + "b", p + p, p + "0"):
                add(f"x = {q}{s}{q}\n")
    for a, b in itertools.product(ESCAPES, ESCAPES):
        add(f"x = '{a}{b}'\n")
    for p in PIECES:
        for e in ESCAPES:
            add(f'x = "{p}{e}{p}"\n')
    for n in list(range(0, 260)) + [1000, 65535, 65536]:
        add(f"x = {n}\n")
        add(f"x = {n}.5\n")
        add(f"x = 0{n}\n")
    for n in range(0, 256):
        add("x = '\\x%02x'\n" % n)
        add("x = '\\%o'\n" % n)
        add("x = '\\%03o1'\n" % n)
        add("x = '\\u%04X'\n" % (n * 37 % 0xd800))
        add("x = '\\U%08x'\n" % (n * 4099 % 0x10ffff if not 0xd800 <= n * 4099 % 0x10ffff < 0xe000 else n))
    for n in range(32, 0x250):
        if chr(n) not in "\\'\"":
            add(f"x = '{chr(n)}'\n")
    for c in COMMENTS:
        for t in ("x = 1 ;{}\n", ";{}\nx = 'a'\n", "x = ;{}\n 2\n", "x = 'a;b' + ;{}\r\n 'c'\n", "x = 3;{}", "x = \\\n 4 ;{}\n"):
            add(t.format(c))
    for v in ("0.5", "1.25", "10.0", "0.0", "3.75", "100.125", "00.5", "1.50"):
        for t in ("x = {}\n", "x = -{}\n", "x = {}+{}\n", "x = ({}).str()\n", "x = {}.str()\n"):
            add(t.replace("{}", v))
    for n in (40, 130, 260, 600) * (1 if tier == "quick" else 10):
        add(f"x = {literal(r, n)}\n")
        add("x = '" + r.choice(ESCAPES + PIECES[:14]).replace("'", "") * n + "'\n")
        add("x = '" + "".join(r.choice(ESCAPES) for _ in range(n)) + "'\n")
        add("x = " + " + ".join(literal(r, 2) for _ in range(n // 8)) + "\n")
        add(";" + "".join(r.choice(COMMENTS) for _ in range(n)).replace("\n", "") + "\nx = 5\n" + gap(r) * (n // 4))
        add("x = " + "\\\n" * n + "7\n")
    n = 15000 if tier == "quick" else 100000
    for _ in range(n):
        add(f"x = {literal(r)}\n" if r.random() < 0.3 else lexical_script(r))
    return out


ROWS = {"C17": rows_C17, "C19": rows_C19, "C20": rows_C20, "C21": rows_C21}
_bench = None


def evaluate(rows):
    global _bench
    if _bench is None:
        _bench = Bench()
    return [_bench.run(x["script"]) for x in rows]


TABLE_CFG = "SPECIFICATION Spec\nINVARIANT Judge\nCHECK_DEADLOCK FALSE\n"


def judge(rows, workers, module="WTable", extra=None, coverage=False):
    """rows with their outcome; returns ({id: verdict that is not accept}, Result)."""
    data = {"pkgs": [{"name": cps(n), "files": [cps(f) for f in fs]} for n, fs in PKGS], "hist": sev_hist([0] * 6),
            "words": WORDS, "x": cps("x"),
            "rows": [{k: cps(v) if k == "script" else v for k, v in x.items() if k != "script" or x.get("parse")} for x in rows]}
    data.update(extra or {})
    return tlc.table(module, TABLE_CFG, data, workers, coverage)


def table_engine(rep, name, tier, rows=None, evaluate_fn=evaluate, judge_fn=judge):
    """Evaluate the rows with the implementation and judge them."""
    from . import engine
    import time
    rows = rows if rows is not None else ROWS[rep.prop](random.Random(f"{rep.seed}:{rep.prop}"), tier)
    for i, x in enumerate(rows):
        x["id"] = i
    t = time.time()
    tot = dict(accept=0, oos=0, reject=0)
    outs, kinds, run_s, spec_s = [], {}, 0.0, 0.0
    size = 40000
    with engine.pool() as p:
        for c in range(0, len(rows), size):
            part = rows[c:c + size]
            t = time.time()
            ch = [part[i:i + 100] for i in range(0, len(part), 100)]
            for cc, o in zip(ch, p.map(evaluate_fn, ch)):
                for x, y in zip(cc, o):
                    x["out"] = y
                    kinds[y["k"]] = kinds.get(y["k"], 0) + 1
            run_s += time.time() - t
            t = time.time()
            for i, x in enumerate(part):
                x["id"] = i
            bad, r = judge_rows(part, engine.WORKERS, judge_fn)
            spec_s += time.time() - t
            rep.tlc(r)
            for i, x in enumerate(part):
                w = bad[i]["v"] if i in bad else "accept"
                tot[w] += 1
                if w == "reject":
                    d = {"property": rep.prop, "engine": name, "key": x["script"], "row": x, "verdict": bad[i],
                         "summary": f"{x['script']!r}: the implementation gives {json.dumps(x['out'])}, "
                                    f"the specification wants {json.dumps(bad[i].get('want'))}"}
                    rep.violation(d)
            if tot["reject"]:
                break
    for x in random.Random(rep.seed).sample(rows, min(3, len(rows))):
        if "out" in x:
            rep.sample({"engine": name, "script": x["script"], "out": x["out"]}, 6)
    rep.traces += tot["accept"] + tot["reject"]
    rep.part(name, rows=sum(tot.values()), accepted=tot["accept"], rejected=tot["reject"], out_of_scope=tot["oos"],
             outcomes=kinds, record_s=run_s, tlc_s=spec_s)


def judge_rows(rows, workers, judge_fn):
    """A row that TLC cannot evaluate at all is rejected."""
    try:
        return judge_fn(rows, workers)
    except tlc.TLCError as ex:
        if len(rows) == 1:
            r = tlc.Result()
            r.distinct = r.states = 1
            return {rows[0]["id"]: {"id": rows[0]["id"], "v": "reject", "want": str(ex)[-500:]}}, r
        h = len(rows) // 2
        b1, r1 = judge_rows(rows[:h], workers, judge_fn)
        if any(x["v"] == "reject" for x in b1.values()):
            return b1, r1
        b2, r2 = judge_rows(rows[h:], workers, judge_fn)
        b1.update(b2)
        r1.distinct += r2.distinct
        r1.states += r2.states
        return b1, r1
