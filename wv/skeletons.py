"""Small scripts, enumerated: for every property the ways of putting its statements
together, up to a bound. TLC explores every way of answering their callbacks
(spec/WizardGen.tla) and the implementation has to follow each of them."""

from __future__ import annotations

import copy
import itertools
import random

from .lang import (
    BREAK, CONTINUE, RETURN, SUBS, Job, assign, bi, broken, call, cancel, compound, cps,
    exec_, expr, fori, forr, if_, inc, kw, lit, meth, render, select, slc, un, var, while_,
)

product = itertools.product
FALSE_TRUE = [[0, 0], [0, 1]]
RETS = {"dataFileExists": FALSE_TRUE, "getFilename": [[3]], "*": [[1, 0]]}
ONE = {"dataFileExists": [[0, 1]], "getFilename": [[3]], "*": [[1, 0]]}
PK = [("Main", ["a.esp", "data/b.esm", "r.txt"]), ("Opt", ["c.esl"])]


def P(t):
    return expr(call("GetFilename", lit(t)))


def C(t):
    return call("DataFileExists", lit(t))


def num(n):
    return lit(n) if n >= 0 else un("neg", lit(-n))


class Sk:
    """A skeleton: a script with its environment."""

    def __init__(self, block, pkgs=PK, sev=None, execs=(), rets=RETS, budget=0, kinds=(), maxplan=8, decl=None,
                 style=0, init=None, group=0):
        self.block, self.pkgs, self.sev, self.execs = block, pkgs, sev, execs
        self.env = {"rets": rets, "budget": budget, "kinds": list(kinds), "maxplan": maxplan, "tail": 40}
        self.decl = decl or {"k": ""}
        self.style = style
        self.init = init
        self.group = group      # samples are taken from each group

    eol, tail = "\n", None     # what the script ends with, instead of an end of line

    def job(self):
        j = Job(copy.deepcopy(self.block), self.pkgs, self.sev, [(t, copy.deepcopy(b)) for t, b in self.execs],
                self.style, self.eol, init=self.init, env={"tla": self.env})
        if self.tail is not None:
            j.script = j.script.removesuffix(self.eol) + self.tail
        return j


class Execs:
    """Blocks run by Exec()."""

    def __init__(self):
        self.all = []

    def __call__(self, b, split=None):
        b = copy.deepcopy(b)
        t = render(b)
        self.all.append((t, b))
        if split and len(t) > 1:
            return exec_(bi("add", lit(t[: len(t) // 2]), lit(t[len(t) // 2:])))
        return exec_(lit(t))


# ------------------------------------------------------------------- wrappers
def opts(*names):
    return [(lit(n), lit("d"), lit("")) for n in names]


def wrap(kind, b, ex, n):
    """The block inside one more construct (n tells the levels apart)."""
    q = [P(f"after{n}")]
    if kind == "if":
        return [if_([(C(f"c{n}"), b)], None)] + q
    if kind == "elif":
        return [if_([(C(f"c{n}"), [P(f"then{n}")]), (C(f"e{n}"), b)], [P(f"else{n}")])] + q
    if kind == "else":
        return [if_([(C(f"c{n}"), [P(f"then{n}")])], b)] + q
    if kind == "for":
        return [forr(f"i{n}", [lit(1), lit(2)], b)] + q
    if kind == "down":
        return [forr(f"i{n}", [lit(2), lit(0), num(-2)], b)] + q
    if kind == "fori":
        return [fori(f"p{n}", lit("xy"), b)] + q
    if kind == "forsub":
        return [fori(f"p{n}", SUBS, b)] + q
    if kind == "while":
        g = f"g{n}"
        return [assign(g, lit(0)), while_(bi("le", inc(g), lit(2)), b)] + q
    if kind == "case1":
        return [select(False, lit("D"), opts("A", "B"), [(lit("A"), b), (lit("B"), [P(f"B{n}"), BREAK])], [P(f"def{n}")])] + q
    if kind == "case2":
        return [select(True, lit("D"), opts("A", "|B"), [(lit("A"), [P(f"A{n}")]), (lit("B"), b)], [P(f"def{n}")])] + q
    if kind == "many":
        return [select(True, lit("D"), opts("A", "B"), [(lit("A"), b), (lit("B"), [P(f"B{n}")])], None)] + q
    if kind == "default":
        return [select(False, lit("D"), opts("A", "B"), [(lit("A"), [P(f"A{n}")])], b)] + q
    if kind == "exec":
        return [ex(b)] + q
    if kind == "":
        return b
    raise ValueError(kind)


def nest(kinds, leaf, ex):
    """kinds: outermost first."""
    b = leaf
    for n, k in reversed(list(enumerate(kinds))):
        b = wrap(k, [P(f"in{n}")] + b, ex, n)
    return [P("start")] + b + [P("end")]


LOOPS = ["for", "fori", "while"]
ALLW = ["if", "elif", "else", "for", "fori", "while", "case1", "case2", "default", "exec"]


def chains(kinds, lo, hi):
    for n in range(lo, hi + 1):
        yield from product(kinds, repeat=n)


# ----------------------------------------------------------------- properties
SIMPLE = [
    lambda: assign("x", lit(2)), lambda: assign("x", bi("add", var("x"), lit(1))), lambda: assign("y", var("x")),
    lambda: assign("x", lit("t")), lambda: assign("y", inc("x")), lambda: assign("x", inc("x", False)),
    lambda: compound("x", "add", lit(3)), lambda: compound("x", "sub", inc("x")), lambda: compound("x", "mul", var("y")),
    lambda: compound("x", "pow", lit(2)), lambda: compound("z", "add", lit(1)), lambda: compound("x", "div", lit(2)),
    lambda: compound("x", "mod", lit(2)), lambda: compound("x", "add", var("x")),
    lambda: expr(inc("x")), lambda: expr(inc("x", True, "dec")), lambda: expr(inc("y", False)),
    lambda: P("p"), lambda: expr(call("EditINI", lit("f"), lit("s"), inc("x"), lit(1))),
    lambda: expr(call("DisableINILine", lit("f"), lit("s"), call("str", inc("y")))),
    lambda: kw("Note", call("str", inc("x"))), lambda: kw("RequireVersions", call("str", inc("x"))),
    lambda: kw("SelectSubPackage", bi("add", lit("Ma"), lit("in"))), lambda: if_([(bi("gt", inc("x"), lit(1)), [assign("y", lit(9))])]),
    lambda: assign("z", var("w")), lambda: fori("x", lit("ab"), []), lambda: forr("x", [var("x"), lit(2)], []),
    lambda: while_(bi("lt", inc("y"), lit(2)), []),
]


def c01(r):
    pre = [assign("x", lit(1)), assign("y", lit(0))]
    for n in (1, 2, 3):
        for s in product(SIMPLE, repeat=n):
            b = []
            for i, f in enumerate(s):
                b += [f(), P(f"s{i}")]
            yield Sk(pre + b)


def c02(r):
    conds = [lambda i: C(f"c{i}"), lambda i: bi("eq", inc("a"), lit(i + 1)), lambda i: var("u"), lambda i: lit("x" if i % 2 else "")]
    for n in (1, 2, 3):
        for cs in product(range(len(conds)), repeat=n):
            for bodies in product((0, 1), repeat=n):
                for els in (None, [], [P("else")]):
                    b = [assign("a", lit(0)),
                         if_([(conds[c](i), [P(f"b{i}"), assign("t", lit(i))] if f else []) for i, (c, f) in enumerate(zip(cs, bodies))], els),
                         P("after")]
                    d = None
                    if all(c == 0 for c in cs) and all(bodies) and els != []:
                        d = {"k": "if", "tags": [cps(f"b{i}") for i in range(n)] + ([cps("else")] if els else []),
                             "has": int(bool(els)), "after": cps("after")}
                    yield Sk(b, decl=d, sev=[1, 0, 1, 1, 1, 1])
    # the same condition, the same branch, more than once
    same = [lambda i: C("c"), lambda i: bi("eq", inc("a"), lit(2)), lambda i: C(f"d{i}"), lambda i: bi("gt", call("CompareGameVersion", lit("g")), lit(0))]
    for cs in product(range(4), repeat=3):
        for tags in ("xxx", "xyx", "xyz"):
            c = [(same[k](i), [P(tags[i]), compound("a", "add", lit(1))]) for i, k in enumerate(cs)]
            yield Sk([assign("a", lit(0)), if_(c, [P("x")]), if_(copy.deepcopy(c)[:2], None), P("after")], sev=[1, 0, 1, 1, 1, 1],
                     rets=dict(RETS, compareGameVersion=[[1, 0], [1, 1]]))
    for k1, k2 in product(ALLW, repeat=2):
        ex = Execs()
        b = wrap(k1, wrap(k2, [if_([(C("x"), [P("x")]), (inc("a"), [P("y")])], [P("z")])], ex, 2), ex, 1)
        yield Sk([assign("a", num(-1))] + b, execs=ex.all)


def c03(r):
    bodies = [
        lambda: [], lambda: [kw("Note", call("str", var("i")))], lambda: [assign("i", lit(9))],
        lambda: [assign("n", lit(0)), P("x")], lambda: [if_([(bi("eq", var("i"), lit(1)), [BREAK])]), P("x")],
        lambda: [if_([(C("c"), [CONTINUE])]), P("x")], lambda: [forr("j", [lit(1), var("i")], [P("x")])],
        lambda: [forr("i", [lit(1), lit(2)], [])],
    ]
    end = [kw("Note", call("str", var("i")))]
    pre = [assign("n", lit(2))]
    steps = [None, 1, 2, 3, -1, -2, -3]
    for a, e, s, f in product(range(-2, 4), range(-2, 4), steps, bodies):
        args = [num(a), num(e)] + ([num(s)] if s is not None else [])
        yield Sk(pre + [forr("i", args, f())] + end, maxplan=4, sev=[1, 0, 1, 1, 1, 1])
    # bounds of every type
    ends = [lambda: lit(True), lambda: lit(False), lambda: bi("eq", var("n"), lit(2)), lambda: un("not", C("b")), lambda: lit(2), lambda: lit(2.0), lambda: lit("2"),
            lambda: var("unset"), lambda: lit(-0.0)]
    for x, y, z in product(range(len(ends)), range(len(ends)), (None, 0, 1, 2, 4, 5, 6, 7)):
        yield Sk(pre + [forr("i", [ends[x](), ends[y]()] + ([] if z is None else [ends[z]()]), [kw("Note", call("str", var("i")))])] + end, maxplan=4,
                 sev=[1, 0, 1, 1, 1, 1])
    seqs = [lit(""), lit("a"), lit("aé z"), SUBS, bi("idx", SUBS, lit(0)), bi("idx", SUBS, num(-1)), var("t"), slc(lit("xyz"), lit(1)),
            bi("add", var("t"), call("str", inc("n")))]
    for e, f, pk in product(seqs, bodies, (PK, [("E", [])])):
        if any(w in str(s) for s in f() for w in ("'j'", "'eq'")):
            f = bodies[1]
        yield Sk(pre + [assign("t", lit("qr")), fori("i", e, f())] + [if_([(C("z"), [kw("Note", call("str", call("len", call("str", var("n")))))])])],
                 pkgs=pk, maxplan=4, sev=[1, 0, 1, 1, 1, 1])
    # header with effects, evaluated once
    h = [lambda: bi("mul", inc("n"), lit(0)), lambda: bi("add", lit(1), bi("mul", call("CompareGameVersion", lit("h")), lit(0))),
         lambda: lit(2), lambda: var("n")]
    for x in product(h, repeat=3):
        yield Sk(pre + [forr("i", [f() for f in x[:2]] + [bi("add", bi("mul", x[2](), lit(0)), lit(1))], [compound("n", "add", lit(1)), P("x")])] + end)
    for k1, k2 in product(LOOPS + ["down", "forsub"], repeat=2):
        ex = Execs()
        yield Sk(nest([k1, k2], [if_([(C("x"), [P("x")])])], ex), execs=ex.all, maxplan=12, rets=ONE)


def c04(r):
    conds = [lambda: bi("le", inc("n"), lit(2)), lambda: C("w"), lambda: bi("and", C("w"), bi("le", inc("n"), lit(3))),
             lambda: bi("lt", var("n"), lit(2)), lambda: call("GetFilename", lit("w")), lambda: inc("m"), lambda: lit(False), lambda: lit(0.0),
             lambda: bi("or", C("w"), bi("lt", inc("n"), lit(2)))]
    bodies = [lambda: [], lambda: [P("x")], lambda: [compound("n", "add", lit(1)), P("x")], lambda: [BREAK],
              lambda: [if_([(C("b"), [BREAK])]), compound("n", "add", lit(1))],
              lambda: [compound("n", "add", lit(1)), if_([(C("b"), [CONTINUE])]), P("x")],
              lambda: [compound("n", "add", lit(1)), while_(C("v"), [P("y")])],
              lambda: [compound("n", "add", lit(1)), RETURN], lambda: [assign("m", num(-2)), compound("n", "add", lit(1)), if_([(bi("gt", var("n"), lit(3)), [BREAK])])]]
    rets = dict(RETS, getFilename=[[3], [3, 97]])
    for c, b in product(conds, bodies):
        yield Sk([assign("n", lit(0)), assign("m", num(-3)), while_(c(), b()), kw("Note", call("str", var("n"))), P("end")], rets=rets, maxplan=6)
        yield Sk([assign("n", lit(0)), assign("m", num(-3)), forr("i", [lit(1), lit(2)], [while_(c(), b()), assign("m", num(-2))]), P("end")], rets=rets, maxplan=6)
    for k in ALLW:
        for c in conds:
            ex = Execs()
            yield Sk([assign("n", lit(0)), assign("m", num(-3)), while_(c(), wrap(k, [compound("n", "add", lit(1)), P("x")], ex, 0)), P("end")],
                     execs=ex.all, rets=rets, maxplan=5)


def c05(r):
    targets = ["for", "fori", "while", "case1", "case2", "default", "many"]
    between = ["if", "elif", "else", "exec", "case1", "case2", "default"]
    for leaf in (BREAK, CONTINUE):
        for outer, t in product([""] + targets, targets):
            for mid in chains(between, 0, 2):
                for guard in (0, 1):
                    ex = Execs()
                    lf = [if_([(C("g"), [leaf])]), P("rest")] if guard else [leaf, P("rest")]
                    yield Sk(nest([outer, t, *mid], lf, ex), execs=ex.all, maxplan=7)
        for mid in chains(between[:4], 0, 3):      # no target
            ex = Execs()
            yield Sk(nest(mid, [leaf, P("rest")], ex), execs=ex.all, maxplan=5)


def c06(r):
    names = ["A", "B", "", "|C", "A", "x|y"]
    for many in (False, True):
        for n in (1, 2, 3, 4):
            for marks in product((0, 1), repeat=n):
                for sev in (0, 1, 2):
                    for base in (0, 2, 3):
                        os = [(lit(("|" if m else "") + names[(base + i) % 6]), lit(f"d{i}"), lit(["", " ", "i.png"][i % 3])) for i, m in enumerate(marks)]
                        b = select(many, lit("D"), os, [(lit(names[(base + i) % 6]), [P(f"c{i}"), BREAK]) for i in range(n)], [P("def")])
                        yield Sk([b, P("end")], sev=[sev] + [1] * 5, style=base % 2)
    # names, descriptions and images computed, in loops
    e = [lambda i: call("str", inc("n")), lambda i: call("GetFilename", lit(f"o{i}")), lambda i: bi("add", lit("|"), call("str", var("n")))]
    rets = dict(RETS, getFilename=[[3], [3, 124], [3, 124, 97]])
    for many, a, b_, c, d in product((False, True), e, e, e, e):
        s = select(many, d(9), [(a(0), b_(1), c(2)), (lit("|Z"), lit(""), c(3))], [(a(4), [P("x"), BREAK])], [P("def")])
        yield Sk([assign("n", lit(0)), s, P("end")], rets=rets, maxplan=5)
    for k in ALLW:
        for many in (False, True):
            ex = Execs()
            s = select(many, bi("add", lit("D"), call("str", inc("n"))), opts("A", "|B", "C"), [(lit("B"), [P("x"), BREAK])], [P("def")])
            yield Sk([assign("n", lit(0))] + wrap(k, [s], ex, 0), execs=ex.all, maxplan=5)


def c07(r):
    for many in (False, True):
        for n in (0, 1, 2, 3):
            for labels in product((0, 1, 2, 3), repeat=n):
                for brk in product((0, 1), repeat=n):
                    for default in ((0, 1, 2) if n else (1,)):
                        names = ["Other", "A", "B", "C"]
                        cs = [(lit(names[x]), [P(f"c{i}")] + ([BREAK] if k else [])) for i, (x, k) in enumerate(zip(labels, brk))]
                        df = None if default == 0 else [P("def")] + ([BREAK] if default == 2 else [])
                        yield Sk([select(many, lit("D"), opts("A", "B", "C"), cs, df), P("after")],
                                 decl={"k": "select", "many": many, "labels": list(labels), "brk": [bool(x) for x in brk],
                                       "default": int(default > 0), "tags": [cps(f"c{i}") for i in range(n)], "dtag": cps("def"),
                                       "after": cps("after")})
    # labels with effects: evaluated until one is found, or until the end
    for many in (False, True):
        for n in (1, 2, 3):
            for brk in product((0, 1), repeat=n):
                for default in (0, 1):
                    for pre in (True, False):
                        cs = [(call("str", inc("x", pre)), [P(f"c{i}")] + ([BREAK] if k else [])) for i, k in enumerate(brk)]
                        yield Sk([assign("x", lit(0)), select(many, lit("D"), opts("1", "2", "3"), cs, [P("def")] if default else None), P("after")],
                                 group=1)
    bodies = [lambda i: [], lambda i: [BREAK], lambda i: [if_([(C(f"b{i}"), [BREAK])]), P(f"c{i}")],
              lambda i: [select(False, lit("E"), opts("A", "B"), [(lit("A"), [P(f"n{i}"), BREAK])], [P(f"m{i}")])],
              lambda i: [forr("i", [lit(1), lit(2)], [P(f"f{i}"), BREAK])], lambda i: [assign("l", lit("B"))], lambda i: [RETURN],
              lambda i: [select(True, lit("E"), opts("A", "B"), [(lit("A"), [BREAK]), (lit("B"), [P(f"n{i}")])], None)]]
    for many in (False, True):
        for x in product(bodies, repeat=2):
            for df in (None, 0, 2):
                yield Sk([assign("l", lit("A")),
                          select(many, lit("D"), opts("A", "B"), [(lit("A"), x[0](0)), (var("l"), x[1](1))], None if df is None else bodies[df](2)),
                          P("after")], maxplan=7)
    for k in ALLW:
        for many in (False, True):
            for leaf in (BREAK, CONTINUE):
                ex = Execs()
                b = wrap(k, [select(many, lit("D"), opts("A", "B"), [(lit("A"), [P("a")]), (lit("B"), [P("b"), leaf])], [P("def")])], ex, 0)
                yield Sk([forr("z", [lit(1), lit(2)], b), P("end")], execs=ex.all, maxplan=6)


TERMS = [lambda: RETURN, lambda: cancel(), lambda: cancel(lit("")), lambda: cancel(lit("m")), lambda: cancel(call("str", inc("n"))),
         lambda: cancel(call("GetFilename", lit("msg")))]


def c08(r):
    for t in TERMS:
        for ws in chains(ALLW, 0, 2):
            ex = Execs()
            yield Sk([assign("n", lit(0))] + nest(ws, [t(), P("rest")], ex), execs=ex.all, budget=2, kinds=["decline"], maxplan=7)
    for t in TERMS:
        for ws in product(["if", "for", "while", "case2", "exec"], repeat=3):
            ex = Execs()
            yield Sk([assign("n", lit(0))] + nest(ws, [t(), P("rest")], ex), execs=ex.all, budget=1, kinds=["decline"], maxplan=6)


def c09(r):
    bodies = [
        lambda: [], lambda: [P("x")], lambda: [assign("n", lit(5)), P("x")], lambda: [BREAK], lambda: [CONTINUE], lambda: [RETURN],
        lambda: [cancel(lit("m"))], lambda: [compound("n", "add", lit(1)), kw("Note", call("str", var("n")))],
        lambda: [expr(call("EditINI", lit("f"), lit("s"), lit("k"), var("n")))], lambda: [kw("SelectAll")],
        lambda: [forr("i", [lit(1), lit(2)], [P("x")])], lambda: [if_([(C("c"), [BREAK])]), P("x")], lambda: [P("x"), broken(), P("y")],
        lambda: [compound("zz", "add", lit(1))], lambda: [select(False, lit("E"), opts("A", "B"), [(lit("A"), [P("x")])], [P("y")])],
        lambda: [assign("v", lit('q"é\\'))],
    ]
    for b, split in product(bodies, (0, 1)):
        for ws in chains(["if", "for", "while", "case1", "case2", "default", "exec"], 0, 2):
            ex = Execs()
            e = ex(b(), split)
            yield Sk([assign("n", lit(0))] + nest(ws, [e, P("rest")], ex), execs=ex.all, budget=1, kinds=["decline"], maxplan=6)
    args = [[], [lit(3)], [lit("a = 1"), lit("b = 2")], [lit(True)], [SUBS], [var("n")], [var("zz")], [inc("n")], [lit(1.5)],
            [bi("add", lit("n = 7"), slc(call("str", inc("n")), lit(9)))], [call("GetFilename", lit("q"))]]
    for a in args:
        for ws in chains(["if", "for", "exec", "case1"], 0, 1):
            ex = Execs()
            ex.all += [("n = 7", [assign("n", lit(7))]), ("", [])]
            yield Sk([assign("n", lit(0))] + nest(ws, [exec_(*a), P("rest")], ex), execs=ex.all, budget=1, kinds=["raise"], maxplan=6,
                     sev=[1, 0, 1, 1, 1, 1])


EFFECTS = [
    lambda: assign("x", bi("add", var("x"), lit(1))), lambda: compound("x", "mul", lit(2)), lambda: expr(inc("y")),
    lambda: kw("SelectAll"), lambda: kw("DeSelectAll"), lambda: kw("SelectSubPackage", lit("OPT")), lambda: kw("DeSelectSubPackage", lit("main")),
    lambda: kw("SelectPlugin", lit("B.esm")), lambda: kw("DeSelectPlugin", lit("A.ESP")), lambda: kw("SelectAllPlugins"),
    lambda: kw("DeSelectAllPlugins"), lambda: kw("RenamePlugin", lit("a.esp"), call("str", inc("x"))), lambda: kw("ResetPluginName", lit("A.esp")),
    lambda: kw("ResetAllPluginNames"), lambda: kw("Note", call("str", var("x"))),
    lambda: expr(call("EditINI", lit("f"), lit("s"), lit("k"), var("x"))), lambda: expr(call("DisableINILine", lit("f"), lit("s"), call("str", var("y")))),
    lambda: select(False, lit("D"), opts("A", "B"), [(lit("A"), [assign("x", lit(7)), P("a")]), (lit("B"), [P("b"), BREAK])], [P("d")]),
    lambda: forr("i", [lit(1), lit(2)], [compound("x", "add", var("i")), P("l")]),
    lambda: while_(bi("lt", inc("y"), lit(3)), [P("w")]), lambda: if_([(C("c"), [assign("x", lit(5))])], [assign("y", lit(5))]),
    lambda: kw("RequireVersions", lit("1.2")), lambda: expr(call("GetFilename", call("str", inc("x")))),
    lambda: assign("y", bi("add", inc("x"), call("CompareGameVersion", lit("v")))), lambda: RETURN, lambda: cancel(lit("m")),
]


def c10(r):
    pre = [assign("x", lit(1)), assign("y", lit(0)), kw("SelectSubPackage", lit("Main")), kw("RenamePlugin", lit("A.esp"), lit("n")), P("s")]
    for n in (1, 2):
        for s in product(EFFECTS, repeat=n):
            b = []
            for i, f in enumerate(s):
                b += [f(), P(f"p{i}")]
            yield Sk(pre + b, rets=ONE, budget=1 if n == 2 else 2, kinds=["rewind", "decline"][: 1 + (n == 1)], maxplan=8)
    for s in product(EFFECTS, repeat=3):
        b = []
        for i, f in enumerate(s):
            b += [f(), P(f"p{i}")]
        yield Sk(pre + b, rets=ONE, budget=1, kinds=["rewind"], maxplan=9)
    # other answers than the first time
    for f in AGAIN:
        for ws in chains(ALLW, 0, 1):
            ex = Execs()
            yield Sk([assign("x", lit(1)), assign("y", lit(0)), P("s")] + nest(ws, f(ex), ex), execs=ex.all, budget=1, kinds=["rewind"],
                     maxplan=5 + (not ws), group=1 if ws else 2)


def on(t, leaf):
    return if_([(C(t), [leaf])])


AGAIN = [
    lambda ex: [select(True, lit("D"), opts("A", "B"), [(lit("A"), [on("k", BREAK), P("a")]), (lit("B"), [P("b")])], [P("d")]), P("q")],
    lambda ex: [select(False, lit("D"), opts("A", "B"), [(lit("A"), [P("a"), on("k", BREAK)]), (lit("C"), [P("b")])], [P("d")]), P("q")],
    lambda ex: [select(True, lit("D"), opts("1", "2", "3"), [(call("str", inc("x", False)), [P("a")]), (call("str", inc("x", False)), [P("b"), BREAK])],
                       [P("d")]), P("q")],
    lambda ex: [select(False, call("str", inc("x")), opts("1", "2"), [(call("str", inc("y")), [P("a")]), (call("str", inc("y")), [P("b")])], [P("d")]), P("q")],
    lambda ex: [forr("i", [lit(1), lit(3)], [P("i"), on("k", BREAK), compound("x", "add", var("i"))]), P("q")],
    lambda ex: [forr("i", [var("x"), bi("add", inc("x"), lit(1))], [on("k", CONTINUE), P("i")]), P("q")],
    lambda ex: [fori("p", SUBS, [P("p"), on("k", CONTINUE), kw("SelectSubPackage", var("p"))]), P("q")],
    lambda ex: [while_(bi("lt", inc("y"), lit(3)), [P("w"), on("k", CONTINUE), compound("x", "add", lit(1))]), P("q")],
    lambda ex: [while_(C("w"), [P("w"), compound("x", "mul", lit(2))]), P("q")],
    lambda ex: [forr("i", [lit(1), lit(2)], [select(True, lit("D"), opts("A"), [(lit("A"), [P("a"), on("k", CONTINUE)])], [P("d")]), P("r")])],
    lambda ex: [forr("i", [lit(1), lit(2)], [forr("j", [lit(1), lit(2)], [P("j"), on("k", BREAK)]), compound("x", "add", lit(1))]), P("q")],
    lambda ex: [forr("i", [lit(1), lit(2)], [ex([P("e"), on("k", BREAK), compound("x", "add", lit(1))]), P("r")]), P("q")],
    lambda ex: [if_([(C("a"), [compound("x", "add", lit(1)), P("t")]), (bi("gt", inc("x"), lit(1)), [P("u")])], [P("v")]), P("q")],
    lambda ex: [P("p"), ex([compound("x", "add", lit(2)), P("e"), on("k", RETURN)]), P("q")],
    lambda ex: [P("p"), on("k", cancel(call("str", inc("x")))), P("q")],
    lambda ex: [kw("SelectAll"), P("p"), if_([(C("k"), [kw("DeSelectAll")])], [kw("DeSelectPlugin", lit("a.esp"))]), P("q"),
                kw("SelectSubPackage", lit("opt"))],
]


CALLS = [lambda: P("f"), lambda: kw("RequireVersions", lit("1")), lambda: assign("x", bi("add", inc("x"), call("CompareGameVersion", lit("v")))),
         lambda: select(False, lit("D"), opts("A", "B"), [(lit("A"), [P("a")])], [P("d")]),
         lambda: select(True, lit("D"), opts("A", "|B"), [(lit("A"), [P("a")]), (lit("B"), [P("b")])], None),
         lambda: RETURN, lambda: cancel(lit("m")), lambda: compound("zz", "add", lit(1)), lambda: while_(C("w"), [P("b")]),
         lambda: if_([(C("a"), [P("x")]), (C("b"), [P("y")])], [P("z")]),
         lambda: select(False, call("GetFilename", lit("d")), [(call("GetFilename", lit("o")), lit(""), lit(""))], [(call("GetFilename", lit("l")), [P("c")])]),
         lambda: forr("i", [lit(1), bi("add", lit(1), call("CompareGameVersion", lit("v")))], [P("x")]), lambda: assign("x", var("unset")),
         lambda: kw("SelectSubPackage", call("GetFilename", lit("Main"))), lambda: expr(call("EditINI", lit("f"), lit("s"), call("GetFilename", lit("k")), inc("x")))]


def c11(r):
    for c in CALLS:
        for ws in chains(ALLW, 0, 2):
            ex = Execs()
            yield Sk([assign("x", lit(0)), kw("SelectAll")] + nest(ws, [c(), P("rest")], ex), execs=ex.all, budget=2, kinds=["abort", "decline"],
                     rets=ONE if len(ws) else RETS, maxplan=5 if len(ws) < 2 else 7)


ERRORS = [
    lambda: assign("z", bi("add", var("x"), lit("s"))), lambda: assign("z", un("neg", lit("s"))), lambda: assign("z", bi("idx", lit("abc"), lit(3))),
    lambda: assign("z", call("Nope", lit(1))), lambda: assign("z", meth(lit("s"), "nope")), lambda: expr(inc("zz")), lambda: compound("zz", "add", lit(1)),
    lambda: assign("z", var("unset")), lambda: kw("Note", lit(5)), lambda: kw("SelectSubPackage", lit("Nope")), lambda: kw("SelectPlugin", lit("nope.esp")),
    lambda: forr("i", [lit("a"), lit(2)], [P("b")]), lambda: fori("i", lit(3), [P("b")]), lambda: exec_(lit(3)), lambda: broken(),
    lambda: if_([(C("q"), [P("b")]), (bi("sub", lit("s"), lit(1)), [P("c")])], [P("d")]), lambda: while_(bi("lt", lit("s"), lit(1)), [P("b")]),
    lambda: expr(call("len")), lambda: expr(call("GetFilename", lit(3))), lambda: expr(call("EditINI", lit("a"))), lambda: cancel(lit(3)),
    lambda: select(False, lit(3), opts("a"), [(lit("a"), [P("b")])]), lambda: select(True, lit("d"), [(lit("a"), lit(2), lit(""))], [(lit("a"), [P("b")])]),
    lambda: select(False, lit("d"), opts("a"), [(lit(1), [P("b")])], [P("c")]), lambda: kw("SelectAll", lit("x")), lambda: kw("RenamePlugin", lit("a.esp")),
    lambda: expr(call("DataFileExists")), lambda: expr(call("GetPluginLoadOrder", lit("a"), lit("b"))), lambda: BREAK, lambda: CONTINUE,
    lambda: select(False, lit("d"), opts("|a", "|b"), [(lit("a"), [P("b")])]), lambda: assign("z", slc(lit("abc"), lit("x"))),
    lambda: assign("z", bi("in", lit("a"), lit(3))), lambda: compound("x", "sub", lit("s")),
    lambda: kw("RequireVersions"), lambda: assign("z", bi("add", inc("x"), var("unset"))),
]


def c12(r):
    kinds = [[], ["raise"], ["abort", "decline"], ["rewind"]]
    for e in ERRORS:
        for ws in chains(ALLW, 0, 2):
            for ks in kinds:
                ex = Execs()
                st = e()
                if st["k"] == "broken" and any(w in ("case1", "case2", "default") for w in ws):
                    continue
                yield Sk([assign("x", lit(0)), kw("Note", lit("n"))] + nest(ws, [st, P("rest")], ex), execs=ex.all, budget=1 if len(ws) > 1 else 2, kinds=ks,
                         rets=ONE, maxplan=5 + len(ws), sev=[2] * 6)


SETS = [lambda: kw("SelectAll"), lambda: kw("DeSelectAll"), lambda: kw("SelectAllPlugins"), lambda: kw("DeSelectAllPlugins"),
        *[(lambda k, n: lambda: kw(k, lit(n)))(k, n) for k in ("SelectSubPackage", "DeSelectSubPackage") for n in ("One", "TWO", "three", "Nope")],
        *[(lambda k, n: lambda: kw(k, lit(n)))(k, n) for k in ("SelectPlugin", "DeSelectPlugin") for n in ("a.esp", "B.ESP", "c.esm", "Nope.esp")]]
PK3 = [("One", ["b.esp", "sub/a.esp", "r.txt"]), ("Two", ["c.esm", "a.esp"]), ("three", [])]


def c13(r):
    for n in (1, 2, 3):
        for s in product(SETS, repeat=n):
            b = []
            for i, f in enumerate(s):
                b += [f(), P(f"p{i}")]
            yield Sk(b, pkgs=PK3, sev=[1, 1, 1, 1, 0, 0] if n > 1 else [1] * 6)
    for s in product(SETS, repeat=2):
        yield Sk([kw("SelectAll"), s[0](), P("p"), s[1](), P("q")], pkgs=PK3, sev=[1, 1, 1, 1, 2, 2])


RECS = [
    lambda: kw("RenamePlugin", lit("a.esp"), lit("n1")), lambda: kw("RenamePlugin", lit("A.ESP"), lit("n2")), lambda: kw("RenamePlugin", lit("b.esm"), lit("a.esp")),
    lambda: kw("ResetPluginName", lit("A.esp")), lambda: kw("ResetPluginName", lit("zz")), lambda: kw("ResetAllPluginNames"),
    lambda: kw("Note", lit("n")), lambda: kw("Note", lit("")), lambda: kw("Note", lit(1.5)), lambda: kw("Note", lit(True)), lambda: kw("Note", SUBS),
    lambda: expr(call("EditINI", lit("f"), lit("s"), lit("k"), lit(1))), lambda: expr(call("EditINI", lit("f"), lit("s"), lit("k"), lit(1), lit("c"))),
    lambda: expr(call("EditINI", lit("f"), lit("s"), lit("k"), lit(""), lit(""))), lambda: expr(call("EditINI", lit("g"), lit("s"), lit("k"), lit("v"))),
    lambda: expr(call("DisableINILine", lit("f"), lit("s"), lit("k"))), lambda: expr(call("DisableINILine", lit("F"), lit("s"), lit("k"))),
    lambda: expr(call("DisableINILine", lit("f"), lit("s"))), lambda: expr(call("EditINI", lit("f"), lit("s"), lit("k"))),
    lambda: kw("RenameEspm", lit("a.esp"), lit("n3")), lambda: kw("ResetEspmName", lit("a.esp")), lambda: kw("ResetAllEspmNames"),
    lambda: expr(call("EditINI", lit("f"), lit("s"), lit("k"), var("w"))),
]


def c14(r):
    for n in (1, 2, 3):
        for s in product(RECS, repeat=n):
            b = []
            for i, f in enumerate(s):
                b += [f(), P(f"p{i}")]
            yield Sk(b, sev=[1, 0, 1, r.choice([0, 1]), 1, 1])


def c15(r):
    from .gens import KWS, MGR
    vals = [lit(1), lit("x"), lit(2.5), lit(True), SUBS, var("n"), lit("")]
    rets = {n: [[1, 0], [1, 7], [0, 1], [3, 114], [3]] for n in (
        "compareGameVersion", "compareSEVersion", "compareGEVersion", "compareWBVersion", "getPluginLoadOrder", "getPluginStatus",
        "getFolder", "dataFileExists")}
    rets["getFilename"] = [[3], [3, 97], [1, 1]]
    rets["*"] = [[1, 0]]
    pre = [assign("n", lit(4))]
    for f in MGR:
        for n in (0, 1, 2):
            for a in product(vals, repeat=n):
                for use in (0, 1):
                    c = call(f, *a)
                    yield Sk(pre + [expr(c) if use else assign("y", c), P("end")], rets=rets, maxplan=3)
        for n in (3, 4, 7):
            yield Sk(pre + [assign("y", call(f, *[lit(f"a{i}") for i in range(n)])), P("end")], rets=rets, maxplan=3)
            yield Sk(pre + [assign("y", call(f, *[lit(f"a{i}") for i in range(n - 1)], lit(3))), P("end")], rets=rets, maxplan=3)
    names = [lit("a.esp"), lit("Main"), lit(""), call("GetFilename", lit("k"))]
    for k in KWS:
        for n in range(0, 6):
            for a in product(names, repeat=min(n, 3)):
                a = list(a) + [lit(f"e{i}") for i in range(n - 3)]
                yield Sk(pre + [kw(k, *a), P("end")], rets=dict(rets, getFilename=[[3], [3, 99, 46, 101, 115, 108]]), maxplan=3, sev=[1, 1, 1, 1, 0, 0])
    for a in product([lit(""), lit("1.2"), call("GetFilename", lit("v"))], repeat=4):
        yield Sk(pre + [kw("RequireVersions", *a), P("end")], rets=rets, maxplan=3)


def c16(r):
    issues = [
        lambda: select(False, lit("d"), opts("|a", "|b"), [(lit("a"), [P("a"), BREAK]), (lit("b"), [P("b")])], [P("c")]),
        lambda: assign("z", var("unset")), lambda: kw("Note", lit(3)), lambda: kw("SelectSubPackage", lit("Nope")), lambda: kw("SelectPlugin", lit("nope.esp")),
        lambda: assign("z", bi("add", var("unset"), var("un2"))), lambda: kw("Note", var("unset")), lambda: kw("Note", lit("fine")),
        lambda: kw("DeSelectSubPackage", lit("Nope")), lambda: select(True, lit("d"), opts("|a", "|b"), [(lit("a"), [P("a")])], None),
    ]
    for x in product(issues, repeat=2):
        for s in product((0, 1, 2), repeat=2):
            i = [issues.index(y) for y in x]
            at = {0: 0, 1: 1, 2: 3, 3: 4, 4: 5, 5: 1, 6: 3, 7: 3, 8: 4, 9: 0}
            sev = [r.choice([0, 1, 2]) for _ in range(6)]
            sev[2] = 1
            sev[at[i[1]]] = s[1]
            sev[at[i[0]]] = s[0]
            yield Sk([x[0](), P("p"), x[1](), P("q")], sev=sev, budget=1, kinds=["raise", "abort", "rewind"], maxplan=6)


def c18(r):
    count = itertools.count(1)
    tag = lambda t: lit(f"{t}{next(count)}")  # noqa: E731  (so that calls can be told apart)
    leaves = [lambda: inc("a"), lambda: inc("a", False, "dec"), lambda: call("CompareGameVersion", tag("v")), lambda: var("a"), lambda: var("w"),
              lambda: lit(2)]
    ops = ["add", "sub", "mul", "and", "or", "eq", "ne", "lt", "le", "gt", "ge", "div", "mod", "pow"]
    rets = {"compareGameVersion": [[1, 3], [1, 1]], "getFilename": [[3]], "dataFileExists": FALSE_TRUE, "getPluginLoadOrder": [[1, 4]], "*": [[1, 0]]}
    pre = [assign("a", lit(2)), assign("t", lit("hello"))]
    end = [P("end")]

    def sk(b):
        return Sk(pre + b + end, rets=rets, maxplan=5, sev=[1, r.choice([0, 1]), 1, 1, 0, 0])

    for o in ops:
        for x, y in product(leaves, repeat=2):
            if o in ("div", "mod", "pow"):
                y = leaves[5]
            yield sk([assign("z", bi(o, x(), y()))])
    for o1, o2 in product(ops[:11], repeat=2):
        for left in (0, 1):
            x = [r.choice(leaves[:5])() for _ in range(3)]
            e = bi(o2, bi(o1, x[0], x[1]), x[2]) if left else bi(o1, x[0], bi(o2, x[1], x[2]))
            yield sk([assign("z", e)])
    k = [lambda: bi("mul", inc("a"), lit(0)), lambda: call("int", call("CompareGameVersion", tag("v"))), lambda: var("a")]
    s = [lambda: call("str", inc("a")), lambda: call("GetFilename", tag("s")), lambda: var("t")]
    for x in product(k, repeat=3):
        yield sk([assign("z", slc(var("t"), x[0](), x[1](), bi("add", bi("mul", x[2](), lit(0)), lit(1))))])
        yield sk([forr("i", [bi("mul", x[0](), lit(0)), bi("mul", x[1](), lit(0)), bi("add", bi("mul", x[2](), lit(0)), lit(1))], [P("b")])])
        yield sk([expr(call("GetPluginLoadOrder", call("str", x[0]()), x[1]()))])
        yield sk([assign("z", call("find", call("str", x[0]()), call("str", x[1]()), bi("mul", x[2](), lit(0))))])
        yield sk([if_([(x[0](), [P("b")]), (x[1](), [P("c")]), (x[2](), [P("d")])], [P("e")])])
        yield sk([compound("a", "sub", bi("add", x[0](), x[1]()))])
        yield sk([assign("z", bi("idx", var("t"), bi("add", bi("mul", x[0](), lit(0)), bi("mul", x[1](), lit(0)))))])
        yield sk([assign("z", bi("idx", call("str", bi("add", x[0](), lit(7))), bi("mul", x[1](), lit(0))))])
    for x in product(s, repeat=3):
        yield sk([expr(call("DataFileExists", *[f() for f in x]))])
        yield sk([kw("RequireVersions", *[f() for f in x])])
        yield sk([kw("RenamePlugin", x[0](), bi("add", x[1](), x[2]()))])
        yield sk([expr(call("EditINI", x[0](), x[1](), x[2](), inc("a"), call("str", inc("a"))))])
        yield sk([expr(call("DisableINILine", x[0](), x[1](), x[2]()))])
        yield sk([select(False, x[0](), [(x[1](), x[2](), x[0]()), (x[2](), x[1](), x[0]())], [(x[2](), [P("b"), BREAK]), (x[1](), [P("c")])], [P("d")])])
        yield sk([cancel(bi("add", x[0](), x[1]()))])
        yield sk([assign("z", meth(x[0](), "find", x[1]()))])
        yield sk([assign("z", meth(x[0](), r.choice(["startswith", "endswith"]), x[1](), x[2]()))])
        yield sk([assign("z", meth(x[0](), "rfind", x[1](), call("int", call("len", x[2]()))))])
        yield sk([assign("z", bi("in", bi("add", x[0](), x[1]()), SUBS)), kw("Note", x[2]())])


def c22(r):
    g = [c05, c08, c09, c12]
    for f in g:
        for i, x in enumerate(f(r)):
            if i % 7 == 3:
                yield x


def c23(r):
    texts = ["a .= 3", "foo .= 1", "a . b . c", 's .= "x"']
    kinds = ["if", "elif", "else", "for", "fori", "while"]
    for t in texts:
        for ws in chains(kinds, 1, 3):
            for pos in (0, 1, 2):
                b = [P("x"), P("y")]
                b.insert(pos, broken(t))
                ex = Execs()
                yield Sk([assign("a", lit(1)), P("pre"), if_([(C("g"), [P("u")])], [P("v")])] + nest(ws, b, ex), maxplan=8, budget=1, kinds=["rewind"] if len(ws) == 1 else [])
        # entered only in a later iteration, or never
        for c in (lit(False), bi("eq", var("i"), lit(2)), bi("gt", var("i"), lit(5)), C("c")):
            for k in ("if", "else", "elif"):
                bl = {"if": lambda: if_([(c, [P("x"), broken(t)])]), "else": lambda: if_([(un("not", c), [P("y")])], [P("x"), broken(t)]),
                      "elif": lambda: if_([(lit(0), [P("y")]), (c, [broken(t), P("x")])], [P("z")])}[k]()
                yield Sk([forr("i", [lit(1), lit(3)], [P("p"), bl, P("q")]), P("end")], maxplan=8)
        yield Sk([forr("i", [lit(2), lit(1)], [broken(t)]), fori("i", lit(""), [broken(t)]), while_(lit(False), [broken(t)]), P("end")])


def c24(r):
    """Each to be given in all forms."""
    bodies = [[], [P("x")]]
    for f in (c01, c02, c03, c05, c07, c08, c09, c13, c14, c15):
        x = list(f(r))
        bodies += [x[int(len(x) * (i + 0.5) / 4)] for i in range(4)]
    texts = ["é", "Größe und Länge", "日本語のテキストがここにあります", "Фантастические твари", "a;b", "x\\y"]
    for t in texts:
        bodies += [[kw("Note", lit(t)), P(t)], [assign("s", lit(t)), assign("n", call("len", var("s"))), P("end")]]
    for t in ("a\x0cb", "\x0b\x1c", "a\rb"):
        bodies += [[kw("Note", dict(lit(t), raw=True)), P("x")]]
    for b in bodies:
        for eol in ("\n", "\r\n"):
            for tail in (None, "", "; the end", "; Größe — 日本語のテキスト, été à la plage où l'eau est très fraîche"):
                sk = copy.copy(b) if isinstance(b, Sk) else Sk(b)
                sk.eol, sk.tail = eol, tail
                sk.env = dict(sk.env, budget=0, maxplan=1)
                sk.decl = {"k": ""}
                yield sk


FAMILIES = {k.upper(): v for k, v in list(globals().items()) if k[0] == "c" and k[1:].isdigit()}


def family(prop, seed, n=None):
    """The skeletons of a property, or a sample of them."""
    r = random.Random(f"{seed}:{prop}:skeletons")
    all_ = list(FAMILIES[prop](r))
    total = len(all_)
    if n is not None and n < total:
        groups = {}
        for i, x in enumerate(all_):
            groups.setdefault(x.group, []).append(i)
        idx, left = [], n
        for k, g in enumerate(sorted(groups.values(), key=len)):
            m = min(len(g), left // (len(groups) - k))
            idx += r.sample(g, m)
            left -= m
        all_ = [all_[i] for i in sorted(idx)]
    return all_, total
