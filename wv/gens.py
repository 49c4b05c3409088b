"""Random scripts, packages and environments, one family per property. Each family
aims at the statements of its property and stays away from the rest of the language
as far as it can."""

from __future__ import annotations

import copy

from .lang import (
    BREAK, CONTINUE, RETURN, SUBS, Job, assign, bi, broken, call, cancel, compound, cps,
    exec_, expr, fori, forr, if_, inc, kw, lit, meth, render, select, slc, stmt_exprs, un, var, walk, walk_expr,
    while_,
)

INTS = ["a", "b", "c"]
STRS = ["s", "t"]
T = lambda s: [3] + cps(s)  # noqa: E731

PKGS = [
    [("Main", ["a.esp", "data/b.esm", "readme.txt"]), ("Opt", ["c.esl", "sub/dir/d.esp"])],
    [("Core", []), ("Été", ["É.esp", "x.bsa"]), ("straße", ["b.esp"])],
    [],
    [("A", ["a.esp"]), ("B", ["a.esp", "b.esp"]), ("C", ["b.esp", "notes.esp.txt"])],
    [("00 Core Files", ["Core.esp", "meshes/x.nif"]), ("01 Options", ["Option One.esp", "Option Two.esm"]),
     ("02 Patches", ["patch.esl"])],
]

RETS = {
    "compareGameVersion": [[1, -1], [1, 0], [1, 1], [1, 2]],
    "compareSEVersion": [[1, 0], [1, 1]],
    "dataFileExists": [[0, 0], [0, 1]],
    "getFilename": [T(""), T("a"), T("B"), T("|x")],
    "getFolder": [T("a"), T("")],
    "getPluginLoadOrder": [[1, -1], [1, 3]],
    "getPluginStatus": [[1, 0], [1, 2]],
    "*": [[1, 0], [1, 1]],
}


class B:
    """Builder of random scripts. w: weights of the statements."""

    def __init__(self, rng, w, depth=3, size=(1, 4), cfg=None):
        self.r = rng
        self.w = w
        self.maxdepth = depth
        self.size = size
        self.n = 0
        self.loops = 0
        self.execs = []
        self.cfg = cfg or {}
        self.effects = self.cfg.get("effects", 0.3)
        self.budget = self.cfg.get("budget", 45)

    # ---------------------------------------------------------- expressions
    def tag(self, p="p"):
        self.n += 1
        return lit(f"{p}{self.n}")

    def probe(self):
        return expr(call("GetFilename", self.tag()))

    def int_e(self, d=2):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.3:
            return lit(r.randint(0, 4)) if r.random() < 0.8 else un("neg", lit(r.randint(1, 3)))
        if x < 0.55:
            return var(r.choice(INTS))
        if x < 0.55 + self.effects * 0.5:
            if r.random() < 0.6:
                return inc(r.choice(INTS), r.random() < 0.5, r.choice(["inc", "dec"]))
            if r.random() < 0.3:
                return call("int", self.edit_e())
            return call("CompareGameVersion", self.tag("v"))
        if x < 0.9:
            return bi(r.choice(["add", "sub", "add", "sub", "mul"]), self.int_e(d - 1), self.int_e(d - 1))
        if x < 0.95:
            return call("len", self.str_e(d - 1))
        return bi("idx", lit("ab"), lit(0)) if False else call("find", self.str_e(d - 1), lit("a"))

    def edit_e(self):
        """A call which edits a file."""
        r = self.r
        if r.random() < 0.7:
            return call("EditINI", lit("f"), self.tag("s"), lit("k"), lit(r.randint(0, 3)))
        return call("DisableINILine", lit("f"), self.tag("s"), lit("k"))

    def quiet(self):
        """An empty text with an effect."""
        r = self.r
        x = r.random()
        if x < 0.5:
            return slc(call("str", inc(r.choice(INTS), r.random() < 0.5, r.choice(["inc", "dec"]))), lit(9))
        if x < 0.9:
            return slc(call("str", call("int", self.edit_e())), lit(1))
        return slc(call("GetFilename", self.tag("q")), lit(0), lit(0))

    def str_e(self, d=2):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.4:
            return lit(r.choice(["", "a", "B", "xy", "|q", "hello", r.choice([" ", "a ", " x", "\t", "  b c "])]))
        if x < 0.6:
            return var(r.choice(STRS))
        if x < 0.6 + self.effects * 0.4:
            return call("GetFilename", self.tag("f"))
        if x < 0.85:
            return bi("add", self.str_e(d - 1), self.str_e(d - 1))
        return call("str", self.int_e(d - 1))

    def bool_e(self, d=2):
        r = self.r
        x = r.random()
        if x < 0.35:
            return call("DataFileExists", self.tag("c"))
        if x < 0.6:
            return bi(r.choice(["eq", "ne", "lt", "le", "gt", "ge"]), self.int_e(d - 1), self.int_e(d - 1))
        if x < 0.7:
            return bi(r.choice(["eq", "ne", "lt", "eqi"]), self.str_e(d - 1), self.str_e(d - 1))
        if d > 0 and x < 0.85:
            return bi(r.choice(["and", "or"]), self.bool_e(d - 1), self.bool_e(d - 1))
        if d > 0 and x < 0.92:
            return un("not", self.bool_e(d - 1))
        return lit(r.choice([True, False]))

    def cond(self, d=2):
        """A condition of any type."""
        r = self.r
        x = r.random()
        if x < 0.6:
            return self.bool_e(d)
        if x < 0.75:
            return call("CompareGameVersion", self.tag("c"))
        if x < 0.85:
            return call("GetFilename", self.tag("c"))
        if x < 0.93:
            return inc(r.choice(INTS), r.random() < 0.5, r.choice(["inc", "dec"]))
        return r.choice([lit(0), lit(1), lit(0.0), lit(0.5), lit(""), lit("0"), lit(True), lit(False), SUBS,
                         un("neg", lit(1)), var("a"), var("s"), bi("sub", var("a"), var("a"))])

    # ----------------------------------------------------------- statements
    def header(self):
        r = self.r
        b = [assign(x, lit(r.randint(0, 3))) for x in INTS]
        b += [assign(x, lit(r.choice(["", "a", "Xy"]))) for x in STRS]
        return b

    def block(self, d, loop=False, brk=False, size=None):
        lo, hi = size or self.size
        out = []
        for _ in range(self.r.randint(lo, hi)):
            if self.budget <= 0:
                break
            self.budget -= 1
            if out and self.r.random() < 0.06:          # the same statement once more
                s = copy.deepcopy(self.r.choice(out))
            else:
                s = self.stmt(d, loop, brk)
            out.append(s)
            if s["k"] in ("break", "continue", "return", "cancel") and self.r.random() < 0.7:
                # followed by something that must not run
                out.append(self.probe())
                break
        return out

    def stmt(self, d, loop, brk):
        w = dict(self.w)
        if d <= 0:
            for k in ("if", "for", "fori", "while", "select", "selmany"):
                w.pop(k, None)
        if not loop and not self.cfg.get("stray"):
            w.pop("continue", None)
        if not brk and not self.cfg.get("stray"):
            w.pop("break", None)
        if not w:
            return self.probe()
        ks = list(w)
        k = self.r.choices(ks, [w[x] for x in ks])[0]
        return getattr(self, "s_" + k)(d, loop, brk)

    def s_probe(self, d, loop, brk):
        return self.probe()

    def s_assign(self, d, loop, brk):
        x = self.r.random()
        if x < 0.6:
            return assign(self.r.choice(INTS), self.int_e())
        if x < 0.85:
            return assign(self.r.choice(STRS), self.str_e())
        return assign(self.r.choice(["u", "v"]), self.cond())

    def s_compound(self, d, loop, brk):
        if self.r.random() < 0.7:
            return compound(self.r.choice(INTS), self.r.choice(["add", "sub", "mul", "add"]), self.int_e(1))
        return compound(self.r.choice(STRS), "add", self.str_e(1))

    def s_inc(self, d, loop, brk):
        if self.r.random() < 0.15:      # an expression of any form, for its effects
            return expr(self.r.choice([self.bool_e, self.int_e, self.str_e, self.cond])())
        return expr(inc(self.r.choice(INTS), self.r.random() < 0.5, self.r.choice(["inc", "dec"])))

    def s_note(self, d, loop, brk):
        return kw("Note", self.str_e())

    def s_edit(self, d, loop, brk):
        r = self.r
        if r.random() < 0.6:
            return expr(call("EditINI", self.str_e(1), self.tag("s"), lit("k"), r.choice([self.int_e, self.str_e])(1)))
        return expr(call("DisableINILine", self.str_e(1), self.tag("s"), lit("k")))

    def s_require(self, d, loop, brk):
        n = self.r.randint(1, 4)
        return kw("RequireVersions", *[self.str_e(1) for _ in range(n)])

    def s_if(self, d, loop, brk):
        r = self.r
        n = self.r.choice([1, 1, 2, 3])
        cs = []
        for _ in range(n):                              # now and then the same condition again
            cs.append(copy.deepcopy(r.choice(cs)) if cs and r.random() < 0.15 else self.cond())
        return if_([(c, self.block(d - 1, loop, brk, (0, self.size[1]))) for c in cs],
                   self.block(d - 1, loop, brk, (0, self.size[1])) if self.r.random() < 0.5 else None)

    def loopvar(self):
        self.loops += 1
        return self.r.choice(["i", "k", "m", "a"])

    def s_for(self, d, loop, brk):
        r = self.r
        x = self.loopvar()
        args = self.range_args()
        return forr(x, args, self.block(d - 1, True, True))

    def range_args(self):
        r = self.r
        lo = r.randint(-2, 4)
        hi = lo + r.choice([-3, -1, 0, 1, 2, 3])
        f = lambda n: lit(n) if n >= 0 else un("neg", lit(-n))  # noqa: E731
        if r.random() < 0.25:
            lo_e = bi("add", f(lo), call("CompareGameVersion", self.tag("h")))
        else:
            lo_e = f(lo)
        hi_e = f(hi)
        if r.random() < 0.15:
            hi_e = bi("add", bi("mul", inc(r.choice(["b", "c"])), lit(0)), f(hi))
        args = [lo_e, hi_e]
        step = r.choice([None, None, 1, 2, 3, -1, -1, -2, -3])
        if step is not None:
            args.append(f(step))
        if r.random() < 0.08:                           # a bound that is a truth value
            args[r.choice([0, 1, -1])] = r.choice([lit(True), lit(False), bi("ge", lit(1), call("CompareGameVersion", self.tag("h"))),
                                                   un("not", self.bool_e(0))])
        return args

    def s_fori(self, d, loop, brk):
        r = self.r
        e = r.choice([SUBS, lit(""), lit("xyz"), lit("Été"), self.str_e(1), var("s")])
        if self.cfg.get("pkgs") and r.random() < 0.4:
            e = bi("idx", SUBS, lit(r.randrange(self.cfg["pkgs"])))
        return fori(r.choice(["p", "q"]), e, self.block(d - 1, True, True))

    def s_while(self, d, loop, brk):
        self.loops += 1
        g = f"g{self.loops}"
        n = self.r.randint(1, 4)
        bound = bi("le", inc(g), lit(n))
        x = self.r.random()
        if x < 0.4:
            c = bi("and", self.cond(), bound)
        elif x < 0.6:
            c = bi("and", bound, self.cond())
        elif x < 0.8:
            c = bound
        else:
            c = call("DataFileExists", self.tag("w"))
        body = self.block(d - 1, True, True)
        # the guard is set at the start of the script
        self.guards = getattr(self, "guards", []) + [g]
        return while_(c, body)

    def near(self, n):
        """A name that differs in little from the given one."""
        return self.r.choice([" " + n, n + " ", n + "\t", "\n" + n, n.lower(), n.upper(), n.swapcase(), "|" + n, n[:-1], n[1:],
                              n + n[-1:], "data/" + n, "./" + n, "\\" + n, n + ".", n.strip(), n + "\u200b", "'" + n + "'"])

    def option_names(self, n):
        pool = ["One", "Two", "one", "Three", "x y", "", "É", "a|b", "|One", "||", "1", "2", "0", "-1", "3"]
        names = [self.r.choice(pool) for _ in range(n)]
        for i in range(1, n):
            if self.r.random() < 0.1:
                names[i] = self.near(names[i - 1])
        return names

    def s_select(self, d, loop, brk, many=False):
        r = self.r
        n = r.choice([1, 2, 2, 3, 4])
        names = self.option_names(n)
        opts = []
        pm = r.choice([0.0, 0.3, 0.6, 1.0]) if many or self.cfg.get("multi", True) else 0.0
        marks = [r.random() < pm for _ in range(n)]
        if not many and not self.cfg.get("multi", True):
            marks = [False] * n
            if r.random() < 0.6:
                marks[r.randrange(n)] = True
        for nm, m in zip(names, marks):
            t = ("|" if m else "") + nm
            a = lit(t)
            if not m and t[:1] == "|" and not self.cfg.get("multi", True):
                a = lit("x" + t)
            if r.random() < 0.15 and len(t) > 1:
                k = r.randint(1, len(t) - 1)
                a = bi("add", lit(t[:k]), lit(t[k:]))
            b_ = lit(r.choice(["", "d", "desc " + nm])) if r.random() < 0.8 else self.str_e(1)
            c = lit(r.choice(["", "", " ", "\t", "i.png", " i.png "])) if r.random() < 0.9 else self.str_e(1)
            opts.append((a, b_, c))
        desc = lit(r.choice(["", "D", "Pick one"])) if r.random() < 0.7 else self.str_e(1)
        return select(many, desc, opts, self.cases(d, names, loop), self.default(d, loop))

    def s_selmany(self, d, loop, brk):
        return self.s_select(d, loop, brk, True)

    def default(self, d, loop):
        if self.r.random() < 0.5:
            return None
        b = self.block(d - 1, loop, True, (0, 2))
        return [self.probe()] + b + ([BREAK] if self.r.random() < 0.4 else [])

    def cases(self, d, names, loop):
        r = self.r
        out = []
        labels = list(names)
        if r.random() < 0.3:
            r.shuffle(labels)
        if r.random() < 0.3 and labels:
            labels.append(r.choice(labels))
        if r.random() < 0.3:
            labels.insert(r.randint(0, len(labels)), r.choice(["Missing", "ONE", "two"]))
        for i in range(len(labels)):
            if r.random() < 0.07:
                labels[i] = self.near(labels[i])
        if r.random() < 0.2 and labels:
            labels.pop(r.randrange(len(labels)))
        pb = r.choice([0.0, 0.5, 0.9])
        for nm in labels:
            e = lit(nm)
            x = r.random()
            if x < 0.08:
                e = call("GetFilename", self.tag("l"))
            elif x < 0.14:
                e = var(r.choice(STRS))
            elif x < 0.22:
                e = call("str", inc(r.choice(INTS), r.random() < 0.5, r.choice(["inc", "dec"])))
            elif x < 0.26:
                e = bi("add", lit(nm), self.quiet())
            b = [self.probe()] if r.random() < 0.8 else []
            b += self.block(d - 1, loop, True, (0, 2))
            if r.random() < pb:
                b.append(BREAK)
                if r.random() < 0.2:
                    b.append(self.probe())
            out.append((e, b))
        return out

    def s_break(self, d, loop, brk):
        return BREAK

    def s_continue(self, d, loop, brk):
        return CONTINUE

    def s_return(self, d, loop, brk):
        return RETURN

    def s_cancel(self, d, loop, brk):
        x = self.r.random()
        if x < 0.4:
            return cancel()
        if x < 0.6:
            return cancel(lit(self.r.choice(["stop", ""])))
        if x < 0.8:
            return cancel(call("str", inc(self.r.choice(INTS), self.r.random() < 0.5)))
        return cancel(self.str_e(2))

    def s_exec(self, d, loop, brk):
        if self.r.random() < 0.2:
            return self.exec_again()
        b = self.block(max(d - 1, 0), loop, brk, (0, self.size[1]))
        return self.exec_of(b)

    def exec_again(self):
        """The same Exec with another text each time."""
        r = self.r
        make = r.choice([lambda n: [compound("a", "add", lit(n))], lambda n: [assign("b", lit(n)), self_probe("b")],
                         lambda n: [if_([(bi("gt", lit(n), lit(1)), [expr(call("GetFolder", lit("x")))])])],
                         lambda n: [expr(inc("c"))] * n])
        self_probe = lambda x: expr(call("GetFilename", call("str", var(x))))  # noqa: E731
        texts = []
        for n in range(1, 4):
            b = copy.deepcopy(make(n))
            texts.append(render(b))
            self.execs.append((texts[-1], b))
        if len(texts[0]) == len(texts[1]):
            k = next(i for i in range(len(texts[0])) if texts[0][i] != texts[1][i])
            e = bi("add", bi("add", lit(texts[0][:k]), call("str", var("k"))), lit(texts[0][k + 1:]))
            return forr("k", r.choice([[lit(1), lit(3)], [lit(3), lit(1), un("neg", lit(1))]]), [exec_(e), self.probe()])
        r.shuffle(texts)
        return forr("k", [lit(1), lit(3)], [
            if_([(bi("eq", var("k"), lit(n)), [assign("v", lit(t))]) for n, t in enumerate(texts, 1)]), exec_(var("v")), self.probe()])

    def exec_of(self, b):
        r = self.r
        x = r.random()
        if x < 0.6:
            t = render(b)
        elif x < 0.75:
            raw(r, b)
            t = render(b)
        else:
            t = render(b, r.choice(["\n", "\r\n"]), any_style(r))
        if r.random() < 0.35:       # the end of the text need not be the end of a line
            t = t.rstrip("\r\n") + r.choice(["", "", " ", "\t", ";", " ; EndIf", " ;x", "\n;\n", "\n\n", "\r", "; \"", "\n ; Break", ";\\"])
        self.execs.append((t, b))
        x = r.random()
        if x < 0.6 or len(t) < 2:
            return exec_(lit(t))
        k = r.randint(1, len(t) - 1)
        e = bi("add", lit(t[:k]), lit(t[k:]))
        if x < 0.8:
            return exec_(e)
        # an argument with an effect
        if r.random() < 0.5:
            return exec_(bi("add", self.quiet(), lit(t)))
        return exec_(bi("add", lit(t), self.quiet()))

    def s_broken(self, d, loop, brk):
        r = self.r
        return broken(r.choice(["a .= 3", "foo .= 1", "a . b . c", 's .= "x"']))

    # pieces of installer state
    def name_of(self, names):
        n = self.r.choice(names)
        return self.recase(n)

    def recase(self, n):
        x = self.r.random()
        if x < 0.06:
            return self.near(n)
        if x < 0.4:
            return n
        if x < 0.6:
            u = n.upper()
            return u if u.casefold() == n.casefold() else n
        if x < 0.8:
            return n.lower()
        return n.swapcase() if n.swapcase().casefold() == n.casefold() else n

    def text(self, s):
        """A string expression with the given value, not always a literal."""
        x = self.r.random()
        if x < 0.85 or len(s) < 2:
            return lit(s)
        k = self.r.randint(1, len(s) - 1)
        return bi("add", lit(s[:k]), lit(s[k:]))

    def s_kw(self, d, loop, brk):
        r = self.r
        pk = self.cfg.get("packages", [])
        names = [n for n, _ in pk] + ["Nope"]
        plugins = [f.rsplit("/", 1)[-1] for _, fs in pk for f in fs
                   if f.rsplit(".", 1)[-1] in ("esp", "esm", "esl")] + ["nope.esp"]
        espm = r.random() < 0.3
        P, PS, PN, PNS = ("Espm", "Espms", "EspmName", "EspmNames") if espm else ("Plugin", "Plugins", "PluginName", "PluginNames")
        k = r.choice(self.cfg.get("kws", ["SelectSubPackage", "DeSelectSubPackage", "SelectPlugin", "DeSelectPlugin",
                                          "SelectAll", "DeSelectAll", "SelectAllPlugins", "DeSelectAllPlugins"]))
        if k in ("SelectSubPackage", "DeSelectSubPackage"):
            if pk and r.random() < 0.2:
                return kw(k, bi("idx", SUBS, lit(r.randrange(len(pk)))))
            return kw(k, self.text(self.name_of(names)))
        if k in ("SelectPlugin", "DeSelectPlugin"):
            return kw(k.replace("Plugin", P), self.text(self.name_of(plugins)))
        if k in ("SelectAllPlugins", "DeSelectAllPlugins"):
            return kw(k.replace("Plugins", PS))
        if k == "RenamePlugin":
            return kw("Rename" + P, self.text(self.name_of(plugins)), self.text(r.choice(["n1.esp", "N2.esp", "a.esp", ""])))
        if k == "ResetPluginName":
            return kw("Reset" + PN, self.text(self.name_of(plugins)))
        if k == "ResetAllPluginNames":
            return kw("ResetAll" + PNS)
        return kw(k)

    def script(self, size=(4, 9), header=True):
        body = self.block(self.maxdepth, False, False, size)
        guards = [assign(g, lit(0)) for g in getattr(self, "guards", [])]
        return (self.header() if header else []) + guards + body + [self.probe()]


RAW = ["x \n  y", "\n", " \n", "a\t\n\tb\n", "q\n; r", "u\n\n\nv"]


def raw(r, block):
    """Literals that go on over several lines."""
    def text(e):
        if e["op"] == "lit" and e["v"][0] == 3 and e.get("py") in ("", "a", "xy", "hello"):
            t = r.choice(RAW)
            e.update(lit(t), raw=True)

    def of(s):
        for e in stmt_exprs(s) if s["k"] != "exec" else []:
            walk_expr(e, text)

    walk(block, of)


def scenario(job, policy=None, mode="run", **k):
    p = {"rets": RETS}
    p.update(policy or {})
    return dict(job=job, policy=p, mode=mode, **k)


BASE = {"probe": 4, "assign": 3, "compound": 1, "inc": 1}


def any_style(r, splits=0.1):
    """A way of laying out the script."""
    x = r.random()
    return r.randint(0, 1) + (4 if x < splits else 0) + (2 if x < splits / 2 or x > 0.7 else 0) + 8 * r.randint(0, 10**6)


def pick_pkgs(r):
    return r.choice(PKGS)


def general(r, w, cfg=None, size=(4, 9), depth=3, sev=None, pkgs=None, init=None, stmts=(1, 4), style=None, eol="\n"):
    pk = pick_pkgs(r) if pkgs is None else pkgs
    c = {"pkgs": len(pk), "packages": pk}
    c.update(cfg or {})
    b = B(r, w, depth, stmts, c)
    block = b.script(size)
    return Job(copy.deepcopy(block), pk, sev=sev, execs=b.execs, style=any_style(r) if style is None else style,
               init=init, eol=eol)


def fix_execs(job):
    return job


# ----------------------------------------------------------------- properties
def gen_C01(r):
    w = {"probe": 3, "assign": 6, "compound": 4, "inc": 3, "note": 2, "edit": 3, "require": 1,
         "if": 1, "for": 1, "while": 1, "select": 0.7, "selmany": 0.3, "exec": 0.7}
    step = r.random() < 0.5
    init = {}
    if step:
        for x in r.sample(["a", "z1", "s", "u"], 2):
            init[x] = r.choice([[1, 7], [3, 90], [0, 1], [2, 5, 2]])
    j = general(r, w, {"effects": 0.6, "multi": False}, depth=2, init=init, size=(6, 14))
    return scenario(j, mode="step" if step else "run", observe=True, rw=True)


def gen_C02(r):
    j = general(r, {"if": 6, "probe": 4, "assign": 2, "inc": 1, "compound": 1, "for": 0.4, "while": 0.4}, {"effects": 0.5}, size=(3, 7), depth=4)
    return scenario(j)


def gen_C03(r):
    j = general(r, {"for": 5, "fori": 3, "probe": 5, "assign": 2, "inc": 1, "if": 1, "break": 0.3, "continue": 0.3},
                {"effects": 0.5}, size=(3, 6), depth=3)
    # the loop variables after the loops
    return scenario(j)


def gen_C04(r):
    j = general(r, {"while": 5, "probe": 4, "assign": 2, "inc": 2, "if": 1, "break": 0.5, "continue": 0.7, "for": 0.4},
                {"effects": 0.7}, size=(3, 6), depth=3)
    return scenario(j, {"calm": 60})


def gen_C05(r):
    stray = r.random() < 0.15
    j = general(r, {"for": 2, "fori": 0.7, "while": 2, "select": 1.5, "selmany": 1, "if": 3, "exec": 1.5, "probe": 4,
                    "break": 3 if not stray else 1, "continue": 3 if not stray else 1, "inc": 1},
                {"effects": 0.2, "stray": stray, "multi": False}, size=(3, 6), depth=5)
    return scenario(j, {"calm": 60})


def gen_C06(r):
    sev = [r.choice([0, 1, 1, 2])] + [1] * 5
    j = general(r, {"select": 5, "selmany": 5, "probe": 2, "assign": 1, "for": 1.0, "while": 0.5, "if": 0.5},
                {"effects": 0.5}, size=(3, 5), depth=2, sev=sev)
    return scenario(j)


def gen_C07(r):
    j = general(r, {"select": 4, "selmany": 4, "probe": 3, "inc": 1, "if": 1.5, "break": 2, "for": 0.5, "while": 0.3},
                {"effects": 0.2, "multi": False}, size=(2, 4), depth=3)
    return scenario(j)


def gen_C08(r):
    j = general(r, {"probe": 4, "inc": 1, "if": 2, "for": 1.2, "fori": 0.4, "while": 1, "select": 1, "selmany": 0.6, "exec": 1,
                    "return": 1.2, "cancel": 1.2}, {"effects": 0.2, "multi": False}, size=(3, 7), depth=3)
    x = r.random()
    pol = {"p": r.choice([0.5, 0.9]), "budget": r.randint(1, 6), "kinds": ["decline"]} if x < 0.7 else {}
    return scenario(j, pol, rw=False)


def gen_C09(r):
    cfg = {"effects": 0.3, "multi": False}
    j = general(r, {"exec": 5, "probe": 3, "assign": 2, "inc": 1.5, "note": 0.5, "edit": 0.5, "kw": 0.7, "if": 1, "for": 1.2, "while": 0.7,
                    "select": 0.7, "break": 1, "continue": 1, "return": 0.15, "cancel": 0.15}, cfg, size=(3, 6), depth=4)
    b = list(j.block)
    x = r.random()
    if x < 0.25:
        bad = r.choice([exec_(), exec_(lit(3)), exec_(lit("a = 1"), lit("b = 2")), exec_(lit(True)), exec_(SUBS),
                        exec_(bi("add", inc("a"), lit(1))), exec_(call("EditINI", lit("f"), lit("s"), lit("t"), lit(1)))])
        b.insert(r.randint(5, len(b)), bad)
        j = Job(copy.deepcopy(b), j.pkgs, execs=j.execs + [("a = 1", [assign("a", lit(1))])], style=j.style)
        return scenario(j)
    return scenario(j, {"p": 0.3, "budget": 2, "kinds": ["decline"]} if x < 0.4 else {})


ALLW = {"probe": 5, "assign": 2, "compound": 1, "inc": 1.5, "note": 1, "edit": 1, "require": 0.7, "kw": 3, "if": 1.5,
        "for": 1, "fori": 0.5, "while": 0.7, "select": 0.8, "selmany": 0.6, "exec": 0.8, "break": 0.5, "continue": 0.5,
        "return": 0.1, "cancel": 0.1}
ALLKW = ["SelectSubPackage", "DeSelectSubPackage", "SelectPlugin", "DeSelectPlugin", "SelectAll", "DeSelectAll",
         "SelectAllPlugins", "DeSelectAllPlugins", "RenamePlugin", "RenamePlugin", "ResetPluginName", "ResetAllPluginNames"]


def branchy(r, block, where=()):
    """Jumps (and effects) that depend on what a callback answers, in every block."""
    for st in list(block):
        if st["k"] == "if":
            inner = [(c["b"], where) for c in st["conds"]] + ([(st["els"], where)] if st["els"] is not None else [])
        elif st["k"] in ("forr", "fori", "while"):
            inner = [(st["b"], ("loop",))]
        elif st["k"] == "select":
            inner = [(c["b"], where + ("case",)) for c in st["cases"]]
            inner += [(st["default"], where + ("case",))] if st["default"] is not None else []
        else:
            continue
        for b, w in inner:
            if r.random() < 0.3 and b and b[-1]["k"] == "break":     # falls through, then
                b.pop()
            branchy(r, b, w)
    if where and r.random() < 0.7:
        leaf = [BREAK] + ([CONTINUE] if "loop" in where else [])
    elif r.random() < 0.3:
        leaf = [compound("a", "add", lit(1)), expr(inc("b", False)), RETURN]
    else:
        return
    s = if_([(call("DataFileExists", lit(f"k{r.randint(0, 9)}")), [copy.deepcopy(r.choice(leaf))])])
    block.insert(r.randint(0, len(block)) if where else len(block), s)


def gen_branchy(r):
    j = general(r, {"probe": 3, "inc": 1, "kw": 0.5, "if": 1, "for": 1.2, "fori": 0.7, "while": 0.4, "select": 2.5, "selmany": 2.5},
                {"effects": 0.2, "kws": ALLKW, "budget": 20, "multi": False}, size=(1, 4), depth=3)
    block = copy.deepcopy(j.block)
    branchy(r, block)
    return Job(block, j.pkgs, j.sev, j.execs, j.style)


def gen_C10(r):
    if r.random() < 0.35:
        return scenario(gen_branchy(r), {"p": 0.3, "budget": r.randint(1, 5), "kinds": ["rewind"], "calm": 60}, rw=True, observe=True)
    j = general(r, ALLW, {"effects": 0.4, "kws": ALLKW, "budget": 30, "multi": False}, size=(4, 10), depth=3)
    if r.random() < 0.5:
        return scenario(j, {"calm": 60}, mode="step", observe=True, rw=True, p_jump=r.choice([0.1, 0.3]), jumps=r.randint(1, 6))
    return scenario(j, {"p": r.choice([0.1, 0.3]), "budget": r.randint(1, 5), "kinds": ["rewind"], "calm": 60},
                    rw=True, observe=True)


def gen_C11(r):
    j = general(r, ALLW, {"effects": 0.5, "kws": ALLKW, "budget": 25, "multi": False}, size=(4, 9), depth=3)
    b = list(j.block)
    if r.random() < 0.3:    # an error, so that error() is called
        b.insert(r.randint(5, len(b)), r.choice([assign("a", bi("add", lit(1), lit("x"))), expr(call("Nope")),
                                                 broken(), compound("zz", "add", lit(1))]))
        j = Job(copy.deepcopy(b), j.pkgs, execs=j.execs, style=j.style)
    kinds = ["abort", "abort", "abort", "decline", "decline"]
    return scenario(j, {"p": r.choice([0.1, 0.3, 0.6]), "budget": r.randint(1, 5), "kinds": kinds})


def error_stmt(r, b):
    x = r.choice(["s", "t"])
    i = r.choice(INTS)
    rows = [
        assign("z", bi(r.choice(["add", "sub", "mul"]), var(i), var(x))),
        assign("z", un("neg", var(x))),
        assign("z", bi("lt", var(i), var(x))),
        assign("z", bi("idx", lit("abc"), lit(r.randint(3, 9)))),
        assign("z", bi("idx", lit(""), un("neg", lit(r.randint(1, 3))))),
        assign("z", bi("idx", SUBS, lit(r.randint(5, 9)))),
        assign("z", bi("idx", var(i), lit(0))),
        assign("z", call(r.choice(["Nope", "getfilename", "Foo"]), lit(1))),
        assign("z", meth(var(x), r.choice(["nope", "upper"]))),
        assign("z", meth(var(i), "len")),
        expr(inc(r.choice(["unset", "zz"]), r.random() < 0.5, r.choice(["inc", "dec"]))),
        compound(r.choice(["unset", "zz"]), r.choice(["add", "sub", "mul", "div", "mod", "pow"]), lit(1)),
        compound(x, "sub", lit("a")),
        assign("z", bi("add", var(r.choice(["unset", "Zz"])), lit(1))),
        expr(call("GetFilename", var("unset"))) if False else assign("z", var("unset")),
        kw("Note", lit(5)),
        kw("SelectSubPackage", lit("No Such Package")),
        kw("SelectPlugin", lit("nosuch.esp")),
        forr("i", [lit("a"), lit(2)], [b.probe()]),
        forr("i", [lit(1), lit(0.5)], [b.probe()]),
        fori("p", lit(3), [b.probe()]),
        exec_(lit(3)),
        broken(),
        broken("a . b . c"),
        if_([(bi("sub", var(x), lit(1)), [b.probe()])], [b.probe()]),
        while_(bi("sub", var(x), lit(1)), [b.probe()]),
        BREAK, CONTINUE,
        expr(call("len")),
        expr(call("GetFilename", lit(3))),
        expr(call("GetFilename")),
        expr(call("EditINI", lit("a"))),
        cancel(lit(3)),
        select(False, lit(3), [(lit("a"), lit(""), lit(""))], [(lit("a"), [b.probe()])]),
        select(True, lit("d"), [(lit("a"), lit(""), lit("")), (lit("b"), lit(2), lit(""))], [(lit("a"), [b.probe()])]),
        select(False, lit("d"), [(lit("a"), lit(""), lit(""))], [(lit(1), [b.probe()])], [b.probe()]),
    ]
    return r.choice(rows)


def insert_deep(r, block, s, start=0):
    """Insert a statement somewhere in a block or one of its inner blocks (a line that
    cannot be parsed is not confined to a case of a Select)."""
    spots = []
    selects = s["k"] != "broken"

    def collect(bl, lo=0):
        for i in range(lo, len(bl) + 1):
            spots.append((bl, i))
        for st in bl:
            if st["k"] == "if":
                for c in st["conds"]:
                    collect(c["b"])
                if st["els"] is not None:
                    collect(st["els"])
            elif st["k"] in ("forr", "fori", "while"):
                collect(st["b"])
            elif st["k"] == "select" and selects:
                for c in st["cases"]:
                    collect(c["b"])
                if st["default"] is not None:
                    collect(st["default"])

    collect(block, start)
    bl, i = r.choice(spots)
    bl.insert(i, s)


def gen_C12(r):
    w = {"probe": 4, "assign": 2, "inc": 1, "note": 0.5, "if": 1.5, "for": 1, "while": 0.5, "select": 0.6, "kw": 0.5}
    sev = [r.choice([1, 2]), r.choice([1, 2, 2]), 1, r.choice([1, 2, 2]), r.choice([1, 2, 2]), r.choice([1, 2, 2])]
    pk = pick_pkgs(r)
    b = B(r, w, 2, (1, 3), {"pkgs": len(pk), "packages": pk, "effects": 0.3, "budget": 16, "multi": False,
                           "kws": ["SelectAll", "DeSelectAll"]})
    block = copy.deepcopy(b.script((2, 6)))
    for _ in range(r.choice([1, 1, 2])):
        insert_deep(r, block, copy.deepcopy(error_stmt(r, b)), len(b.header()) + len(getattr(b, "guards", [])))
    if r.random() < 0.1:
        t = render([assign("a", lit(9)), broken()])
        e = exec_(lit("a = 9\na .= 3\n"))
        b.execs.append(("a = 9\na .= 3\n", [assign("a", lit(9)), broken()]))
        render(b.execs[-1][1])
        block.append(e)
    j = Job(block, pk, sev=sev, execs=b.execs, style=any_style(r, 0))
    kinds = r.choice([[], ["raise"], ["abort", "decline"], ["rewind"], ["raise", "rewind", "abort", "decline"]])
    return scenario(j, {"p": 0.3, "budget": r.randint(1, 3), "kinds": kinds, "error_p": 0.8}, rw=True)


def random_pkgs(r, fold=False):
    names = ["Main", "Opt A", "opt b", "Été", "straße", "Zed", "00 Core", "aa", "v1.0.esp"]
    files = ["a.esp", "B.esp", "c.esm", "d.esl", "É.esp", "groß.esm", "t.txt", "x.esp.bak", "z.bsa", "esp", "Data/e.esp",
             "Data/sub/a.esp", "B.esp", "long name.esp", "a.v2.esp", "x.esp.esm", "Mod 1.2.esl", "dir.esp/y.esm", ".esp"]
    r.shuffle(names)
    out = []
    for n in names[: r.randint(0, 4)]:
        out.append((n, r.sample(files, r.randint(0, 5))))
    if fold:
        out = [(n, [r.choice([f, f.upper()[:-4] + f[-4:]]) if f[-4:-3] == "." else f for f in fs]) for n, fs in out]
    return out


def gen_C13(r):
    fold = r.random() < 0.25
    pk = random_pkgs(r, fold)
    sev = [1, 1, 1, 1, r.choice([0, 1, 2, 1, 0]), r.choice([0, 1, 2, 1, 0])]
    j = general(r, {"kw": 12, "probe": 3, "if": 0.6, "for": 0.5, "fori": 0.3}, {"effects": 0.1}, size=(6, 20), depth=2, sev=sev, pkgs=pk)
    j.fold = fold
    return scenario(j)


def gen_C14(r):
    pk = random_pkgs(r)
    b_extra = {"kws": ["RenamePlugin", "RenamePlugin", "RenamePlugin", "ResetPluginName", "ResetPluginName", "ResetAllPluginNames"]}
    cfg = {"effects": 0.3, "budget": 40}
    cfg.update(b_extra)
    w = {"kw": 6, "note2": 3, "tweak": 5, "probe": 2, "if": 0.6, "for": 0.8, "exec": 0.3}
    c = {"pkgs": len(pk), "packages": pk}
    c.update(cfg)
    b = B14(r, w, 2, (1, 3), c)
    block = b.script((6, 18))
    j = Job(copy.deepcopy(block), pk, sev=[1, 1, 1, r.choice([0, 1, 1]), 1, 1], execs=b.execs)
    if r.random() < 0.3:
        return scenario(j, mode="step", observe=True, rw=True)
    return scenario(j)


class B14(B):
    def s_note2(self, d, loop, brk):
        r = self.r
        x = r.random()
        if x < 0.6:
            return kw("Note", self.str_e(1))
        return kw("Note", r.choice([lit(3), lit(2.5), lit(True), lit(False), un("neg", lit(2)), var("a"), inc("b"), SUBS,
                                    bi("add", lit("x"), lit("y"))]))

    def any_e(self):
        r = self.r
        return r.choice([self.str_e(1), self.str_e(1), self.int_e(1), lit(2.5), lit(True), lit(""), lit("é")])

    def file_e(self):
        r = self.r
        if r.random() < 0.9:
            return lit(r.choice(["a.ini", "A.ini", "b.ini", "sub/a.ini", "SUB/A.INI", "É.ini", "é.ini", ""]))
        return self.any_e()

    def s_tweak(self, d, loop, brk):
        r = self.r
        if r.random() < 0.6:
            n = r.choice([4, 5])
            c = call("EditINI", self.file_e(), *[self.any_e() for _ in range(n - 1)])
        else:
            c = call("DisableINILine", self.file_e(), *[self.any_e() for _ in range(2)])
        x = r.random()
        if x < 0.7:
            return expr(c)
        if x < 0.85:
            return assign("u", call("int", c))
        return kw("Note", bi("add", lit("n"), slc(lit("x"), call("int", c))))


MGR = {"CompareGameVersion": 1, "CompareSEVersion": 1, "CompareGEVersion": 1, "CompareWBVersion": 1, "GetPluginLoadOrder": 2,
       "GetPluginStatus": 1, "GetEspmStatus": 1, "GetFilename": 1, "GetFolder": 1, "DataFileExists": 6}
KWS = {"SelectSubPackage": 1, "DeSelectSubPackage": 1, "SelectPlugin": 1, "SelectEspm": 1, "DeSelectPlugin": 1, "DeSelectEspm": 1,
       "SelectAll": 0, "DeSelectAll": 0, "SelectAllPlugins": 0, "SelectAllEspms": 0, "DeSelectAllPlugins": 0,
       "DeSelectAllEspms": 0, "RenamePlugin": 2, "RenameEspm": 2, "ResetPluginName": 1, "ResetEspmName": 1,
       "ResetAllPluginNames": 0, "ResetAllEspmNames": 0, "Note": 1, "RequireVersions": 4}


def gen_C15(r):
    pk = [("Main", ["a.esp", "b.esm"]), ("Opt", ["c.esp"])]
    b = B(r, {}, 1, (1, 2), {"effects": 0.3})

    def good(f):
        if f == "DataFileExists":
            return [b.str_e(1) for _ in range(r.randint(1, 6))]
        if f == "GetPluginLoadOrder":
            return [b.str_e(1)] + ([b.int_e(1)] if r.random() < 0.6 else [])
        return [b.str_e(1)]

    def anyv():
        return r.choice([lit(1), lit("x"), lit(2.5), lit(True), SUBS, b.str_e(1), b.int_e(1), lit("v")])

    def kwargs(k):
        if k == "RequireVersions":
            return [lit(r.choice(["", "1.5", "v" + str(i), " ", "2 ", " 1.0", "0", "\t"])) for i in range(r.randint(1, 4))]
        if k in ("SelectSubPackage", "DeSelectSubPackage"):
            return [lit(r.choice(["Main", "OPT", "opt"]))]
        if "Name" in k or "Plugin" in k or "Espm" in k:
            return [lit(r.choice(["a.esp", "B.esm", "c.esp"])), lit("new.esp")][: KWS[k]]
        if k == "Note":
            return [b.str_e(1)]
        return []

    block = []
    for _ in range(r.randint(2, 8)):
        if r.random() < 0.6:
            f = r.choice(list(MGR))
            c = call(f, *good(f))
            x = r.random()
            block.append(expr(c) if x < 0.2 else assign("x", c) if x < 0.8 else kw("Note", call("str", c)))
        else:
            k = r.choice(list(KWS))
            block.append(kw(k, *kwargs(k)))
    x = r.random()
    if x < 0.35:        # wrong number or types of arguments
        f = r.choice(list(MGR))
        n = r.randint(0, 3)
        c = call(f, *[anyv() for _ in range(n)])
        block.append(assign("y", c))
    elif x < 0.6:
        k = r.choice(list(KWS))
        n = r.choice([m for m in range(0, 7) if (m > KWS[k] or m < (1 if k == "RequireVersions" else KWS[k]))])
        block.append(kw(k, *[lit("a.esp") for _ in range(n)]))
    block.append(b.probe())
    j = Job(copy.deepcopy(b.header() + block), pk)
    rets = {n: [[1, 0], [1, 7], [0, 1], [0, 0], T("r"), T(""), [2, 5, 2], [1, -1]] for n in RETS if n != "*"}
    rets["*"] = [[1, 5], T("x"), [0, 1]]
    return scenario(j, {"rets": rets})


def gen_C16(r):
    pk = [("Main", ["a.esp"]), ("Opt", ["c.esp"])]
    b = B(r, {}, 1, (1, 2), {"effects": 0.3})
    rows = [
        lambda: assign("z", var(r.choice(["unset", "un2"]))),
        lambda: assign("z", bi("add", var("unset"), var("un2"))),
        lambda: expr(call("GetFilename", call("str", var("un2")))),
        lambda: kw("Note", r.choice([lit(3), lit(2.5), var("a"), SUBS, lit(True), var("unset")])),
        lambda: kw("SelectSubPackage", lit(r.choice(["Nope", "main x", ""]))),
        lambda: kw("SelectPlugin", lit(r.choice(["nope.esp", "a.esm"]))),
        lambda: select(False, lit("d"), [(lit("|a"), lit(""), lit("")), (lit("|b"), lit(""), lit("")), (lit(r.choice(["c", "|c"])), lit(""), lit(""))],
                       [(lit("a"), [b.probe(), BREAK]), (lit("b"), [b.probe(), BREAK])], [b.probe()]),
        lambda: kw("SelectSubPackage", lit("main")),
        lambda: kw("SelectEspm", lit("A.esp")),
        lambda: kw("Note", lit("fine")),
        lambda: assign(r.choice(["a", "unset"]), lit(1)),
        lambda: kw("DeSelectSubPackage", lit("nope")),
        lambda: kw("DeSelectPlugin", lit("nope")),
        lambda: b.probe(),
        lambda: forr("i", [lit(1), lit(2)], [assign("z", var("unset")), b.probe()]),
    ]
    block = b.header() + [r.choice(rows)() for _ in range(r.randint(4, 12))] + [b.probe()]
    m = r.random()
    sev = [r.choice([0, 1]) for _ in range(6)]
    if m < 0.5:
        sev[r.choice([0, 1, 3, 4, 5])] = 2
    return scenario(Job(copy.deepcopy(block), pk, sev=sev))


class B18(B):
    def eff(self):
        r = self.r
        x = r.random()
        if x < 0.35:
            return inc(r.choice(INTS), r.random() < 0.5, r.choice(["inc", "dec"]))
        if x < 0.6:
            return call("CompareGameVersion", self.tag("v"))
        if x < 0.75:
            return var(r.choice(INTS))
        if x < 0.82:
            return var(r.choice(["unset", "un2"]))
        if x < 0.9:
            return call("int", call("EditINI", self.tag("f"), var("s"), lit("k"), inc(r.choice(INTS))))
        return lit(r.randint(0, 3))

    def tree(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            return self.eff()
        x = r.random()
        if x < 0.55:
            op = r.choice(["add", "sub", "mul", "and", "or", "eq", "ne", "lt", "le", "gt", "ge"])
            return bi(op, self.tree(d - 1), self.tree(d - 1)) if op != "mul" else bi("mul", self.eff(), self.eff())
        if x < 0.62:
            return un("not", self.tree(d - 1))
        if x < 0.72:
            return call("GetPluginLoadOrder", call("str", self.tree(d - 1)), call("int", self.tree(d - 1)))
        if x < 0.76:
            return call("len", call("str", self.tree(d - 1)))
        if x < 0.82:
            return call("find", call("str", self.tree(d - 1)), call("str", self.tree(d - 1)), call("int", self.tree(d - 2)))
        if x < 0.86:
            return call("len", slc(call("GetFilename", self.tag("q")), call("int", self.tree(d - 1)), call("int", self.tree(d - 2)) if r.random() < 0.7 else None))
        t = lambda: call("str", self.tree(d - 1)) if r.random() < 0.7 else call("GetFilename", self.tag("m"))  # noqa: E731
        if x < 0.89:
            return bi(r.choice(["in", "ini"]), t(), SUBS)
        if x < 0.92:
            return bi(r.choice(["eqi", "nei", "lti", "gei"]), t(), t())
        if x < 0.95:
            return call("len", bi("idx", t(), bi("mul", call("int", self.tree(d - 1)), lit(0))))
        return call("int", meth(t(), *r.choice([["find", t()], ["rfind", t(), call("int", self.tree(d - 1))], ["startswith", t(), t()],
                                                ["endswith", t()], ["len"], ["find", t(), self.eff(), self.eff()]])))


def wrong(r, K, S):
    """A statement that fails where effects come before and after the failure: K and S make
    operands with effects that give an integer and a text."""
    x = lambda: r.choice([K, S])()  # noqa: E731
    ar = r.choice(["add", "sub", "mul", "lt", "gei"])
    method = r.choice(["nothing", "upper", "GetFilename", "find", "str"])
    num = lambda: r.choice([K, S, lambda: lit(1.5), lambda: lit(1)])()  # noqa: E731
    exprs = [
        lambda: bi(ar, K(), S()), lambda: bi(ar, S(), K()), lambda: bi("add", bi(ar, S(), K()), K()), lambda: bi("add", K(), bi(ar, S(), K())),
        lambda: bi("idx", S(), S()), lambda: bi("idx", K(), K()), lambda: bi("idx", S(), bi("add", K(), lit(1000))),
        lambda: slc(S(), S(), K()), lambda: slc(S(), K(), S()), lambda: slc(K(), K(), K()), lambda: slc(S(), K(), K(), S()),
        lambda: bi("in", K(), SUBS), lambda: bi("in", S(), S()), lambda: bi("ini", S(), K()), lambda: un("neg", S()),
        lambda: call("nothing", x(), x()), lambda: call("Nothing", x()), lambda: meth(x(), method, x(), x()), lambda: meth(K(), method, x()),
        lambda: meth(S(), method, x()), lambda: meth(SUBS, method, x()),
        lambda: call("len", x(), x()), lambda: call("find", S(), K(), K()), lambda: call("find", S(), S(), K(), K(), K()), lambda: call("startswith", S(), K(), S()),
        lambda: call("lower", K(), S()), lambda: call("GetFilename", K()), lambda: call("GetFilename", S(), S()), lambda: call("DataFileExists", S(), K(), S()),
        lambda: call("EditINI", S(), K(), S(), K()), lambda: call("EditINI", S(), S(), S()), lambda: call("GetPluginLoadOrder", K(), S()),
        lambda: call("CompareGameVersion", K()), lambda: call("DisableINILine", S(), S(), S(), S()),
        lambda: bi("add", inc("unset"), K()), lambda: bi("add", K(), inc("s")), lambda: bi("eq", idxs(K()), K()), lambda: bi("eq", idxs(lit(0)), K()),
    ]
    e = lambda: r.choice(exprs)()  # noqa: E731
    body = [assign("z", S())]
    stmts = [
        lambda: assign("z", e()), lambda: assign("z", e()), lambda: expr(e()), lambda: expr(e()), lambda: compound(r.choice(["a", "s"]), r.choice(["add", "sub", "mul", "pow"]), e()),
        lambda: compound("unset", "add", x()), lambda: compound("s", "sub", x()), lambda: compound("a", "add", S()), lambda: compound("s", "add", K()),
        lambda: if_([(e(), body), (K(), body)], body), lambda: while_(e(), body),
        lambda: forr("i", [num(), num()], body), lambda: forr("i", [num(), num(), num()], body), lambda: forr("i", [S(), K(), S()], body),
        lambda: forr("i", [e(), x()], body), lambda: fori("i", x(), body), lambda: fori("i", e(), body),
        lambda: select(r.random() < 0.5, x(), [(x(), x(), x()), (x(), x(), x())], [(x(), body)], None),
        lambda: select(r.random() < 0.5, S(), [(S(), S(), S()), (x(), e(), x())], [(x(), body)], None),
        lambda: select(False, S(), [(S(), S(), S())], [(e(), body), (K(), body)], body),
        lambda: kw("RequireVersions", x(), x(), x(), x()), lambda: kw("RequireVersions", S(), S(), S(), S(), S()), lambda: kw("RenamePlugin", x(), x()),
        lambda: kw("RenamePlugin", S(), S(), S()), lambda: kw("RenamePlugin", S()), lambda: kw("Note", K()), lambda: kw("Note", S(), S()), lambda: kw("Note", e()),
        lambda: kw("SelectSubPackage", x()), lambda: kw("SelectPlugin", S(), S()), lambda: kw("DeSelectPlugin", K()), lambda: cancel(x()), lambda: cancel(e()),
        lambda: exec_(e()), lambda: exec_(K()),
    ]
    return r.choice(stmts)()


def idxs(i):
    return bi("idx", SUBS, i)


def gen_C18(r):
    pk = [("1", ["a.esp"]), ("Opt", ["2"])]
    b = B18(r, {}, 2, (1, 2), {})
    block = b.header()
    nest = lambda: call("str", b.tree(2))  # noqa: E731
    for _ in range(r.randint(2, 6)):
        x = r.random()
        if x < 0.4:
            block.append(assign(r.choice(["z", "z", "a"]), b.tree(3) if r.random() < 0.5 else b.tree(2)))
            if block[-1]["x"] == "a":
                block[-1]["e"] = call("int", block[-1]["e"])
        elif x < 0.5:
            block.append(compound(r.choice(INTS), "add", call("int", b.tree(2))))
        elif x < 0.6:
            block.append(kw("RequireVersions", *[nest() for _ in range(r.randint(1, 4))]))
        elif x < 0.65:
            block.append(kw("RenamePlugin", nest(), nest()))
        elif x < 0.7:
            block.append(kw("Note", nest()))
        elif x < 0.75:
            block.append(if_([(b.tree(2), [b.probe()]), (b.tree(1), [b.probe()])], [b.probe()]))
        elif x < 0.8:
            m = lambda: bi("mul", call("int", b.tree(1)), lit(0))  # noqa: E731
            block.append(forr("i", [m(), bi("add", m(), lit(1)), bi("add", m(), lit(1))], [b.probe()]))
        elif x < 0.86:
            block.append(select(False, nest(), [(nest(), nest(), nest()), (nest(), nest(), nest())],
                                [(nest(), [b.probe(), BREAK]), (nest(), [b.probe()])], [b.probe()]))
        elif x < 0.92:
            block.append(expr(call("EditINI", b.tree(1), b.tree(1), b.tree(1), b.tree(1), b.tree(1))))
        elif x < 0.96:
            block.append(expr(call("DataFileExists", *[nest() for _ in range(r.randint(1, 5))])))
        else:
            block.append(cancel(nest()) if r.random() < 0.3 else expr(call("GetFilename", nest())))
        block.append(b.probe())
    if r.random() < 0.45:
        block.append(wrong(r, lambda: r.choice([inc(r.choice(INTS)), call("int", call("CompareGameVersion", b.tag("v"))), call("int", call("str", b.tree(1)))]),
                           lambda: r.choice([call("str", inc(r.choice(INTS))), call("GetFilename", b.tag("m")), call("str", b.tree(1))])))
        block.append(b.probe())
    sev = [0, r.choice([0, 1, 1]), 1, 1, 0, 0]
    return scenario(Job(copy.deepcopy(block), pk, sev=sev))


def gen_C22(r):
    w = dict(ALLW)
    j = general(r, w, {"effects": 0.4, "kws": ALLKW, "budget": 22, "multi": True}, size=(3, 8), depth=3)
    if r.random() < 0.25:
        b = copy.deepcopy(j.block)
        insert_deep(r, b, r.choice([broken(), expr(call("Nope")), assign("z", bi("idx", lit("a"), lit(4)))]), 5)
        j = Job(b, j.pkgs, execs=j.execs, style=j.style)
    odd = r.choice([{}, {}, {"p": 0.1, "budget": 2, "kinds": ["abort", "rewind", "raise"]}])
    return scenario(j, odd, rw=True)


def gen_C23(r):
    w = {"probe": 4, "assign": 1, "inc": 2, "if": 2.5, "for": 1.2, "fori": 0.4, "while": 1.0, "note": 0.3}
    b = B(r, w, 3, (1, 3), {"effects": 0.2, "budget": 18, "pkgs": 2})
    block = copy.deepcopy(b.script((2, 6)))
    # one or two broken lines, in the bodies of If, Elif, Else, For and While
    bodies = []

    def f(s):
        if s["k"] == "if":
            bodies.extend(c["b"] for c in s["conds"])
            if s["els"] is not None:
                bodies.append(s["els"])
        elif s["k"] in ("forr", "fori", "while"):
            bodies.append(s["b"])

    walk(block, f)
    if not bodies:
        block.insert(5, if_([(b.cond(), [b.probe()])], [b.probe()]))
        walk(block, f)
    for bd in r.sample(bodies, min(len(bodies), r.choice([1, 1, 2]))):
        bd.insert(r.randint(0, len(bd)), b.s_broken(0, 0, 0))
    pk = PKGS[0]
    return scenario(Job(block, pk, style=0))


# Texts long enough for the encoding to be found out, and short ones.
FOREIGN = ["é", "Größe", "été à la plage, où l'eau est très fraîche", "Фантастические твари и где они обитают", "日本語のテキストがここにあります",
           "naïve café — déjà vu…", "ελληνικά κείμενα εδώ", "ASCII only", "\u00a0", "😀 and more 😀 emoji 😀", "İ ı ſ ß"]


# Characters that some take for the end of a line, or for none at all.
ODD = ["a\x0cb", "\x0b", "\x1c \x1d\x1e", "x\x85y", "\u2028\u2029", "a\rb", "\x00", "\x7f\x1b[0m", "\ufeff", "\t\x0c"]


def foreign(r, block):
    for _ in range(r.choice([1, 2, 4])):
        t = lit(r.choice(FOREIGN))
        if r.random() < 0.3:
            t = lit(r.choice(ODD))
            t["raw"] = True
        s = r.choice([lambda: kw("Note", t), lambda: assign(r.choice(STRS), t), lambda: expr(call("GetFilename", t)),
                      lambda: kw("RenamePlugin", t, lit(r.choice(FOREIGN))), lambda: assign("a", call("len", t))])()
        block.insert(r.randint(0, len(block)), s)


def gen_C24(r):
    w = dict(ALLW)
    eol = r.choice(["\n", "\n", "\r\n"])
    if r.random() < 0.08:
        j = Job([], PKGS[0], eol=eol)
        j.script = r.choice(["", "", ";", "; a comment", "\n", " ", "\t\n\n", "; é ü è", "; " + r.choice(FOREIGN) * 3 + "\n", "\r\n;x\r\n"])
        return scenario(j, forms=True)
    j = general(r, w, {"effects": 0.3, "kws": ALLKW, "budget": 20, "multi": True}, size=(2, 7), depth=2, eol=eol)
    if r.random() < 0.5:
        b = copy.deepcopy(j.block)
        foreign(r, b)
        j = Job(b, j.pkgs, execs=j.execs, style=j.style, eol=eol)
    if r.random() < 0.3:
        j.script += "; " + " ".join(r.choice(FOREIGN) for _ in range(r.randint(1, 6))) + r.choice(["", eol, "\n"])
    if r.random() < 0.2:
        j.script = j.script.rstrip("\r\n")
    if r.random() < 0.15:     # both kinds of line ends
        j.script = "".join(r.choice([x + "\n", x + "\r\n"]) for x in j.script.split(eol))
    return scenario(j, forms=True, mode=r.choice(["run", "run", "step"]))


# ------------------------------------------------------------ large executions
def num(n):
    return lit(n) if n >= 0 else un("neg", lit(-n))


def now_and_then(x, k, block):
    """Run a block when a counter is a multiple of k."""
    return if_([(bi("eq", bi("mod", var(x), lit(k)), lit(0)), block)])


def show_(*xs):
    """A callback that shows the values of some variables."""
    e = lit("=")
    for x in xs:
        e = bi("add", e, call("str", var(x)))
    return expr(call("GetFilename", e))


def deep(r, d, leaf, kinds=("if", "else", "for", "fori", "while", "case", "default", "many", "exec")):
    """A block nested d deep, and the counters of its loops."""
    block, execs, zero = leaf, [], []
    for n in range(d):
        k = r.choice(kinds)
        x = f"n{n}"
        if k == "exec" and sum(map(len, (t for t, _ in execs))) > 1500:
            k = "if"
        if k == "if":
            s = if_([(lit(True), block)], [expr(call("GetFolder", lit("no")))])
        elif k == "else":
            s = if_([(lit(0), [expr(call("GetFolder", lit("no")))]), (lit(""), [])], block)
        elif k == "for":
            s = forr(x, [lit(n), lit(n)], block)
        elif k == "fori":
            s = fori(x, lit("z"), block)
        elif k == "while":
            zero.append(x)
            s = while_(bi("le", inc(x), lit(1)), block)
        elif k == "case":
            s = select(False, lit("d"), [(lit("|o"), lit(""), lit(""))], [(lit("o"), block + [BREAK])])
        elif k == "default":
            s = select(False, lit("d"), [(lit("|o"), lit(""), lit(""))], [(lit("x"), [])], block)
        elif k == "many":
            s = select(True, lit("d"), [(lit("|o"), lit(""), lit(""))], [(lit("o"), block)])
        else:
            t = render(block)
            execs.append((t, block))
            s = exec_(lit(t))
        block = [s, show_()] if r.random() < 0.3 else [s]
    return {"b": [assign(x, lit(0)) for x in zero] + block, "execs": execs}


def big_range(r):
    k = r.choice([1, 1, 2, 3, 7, -1, -1, -2, -5])
    n = r.choice([40, 101, 130, 257])
    lo = r.randint(-150, 150)
    hi = lo + k * n + (r.randrange(abs(k)) if k > 0 else -r.randrange(abs(k)))
    body = [compound("t", "add", var("i"))]
    if r.random() < 0.5:
        body.append(now_and_then("i", r.choice([2, 10, 16]), [show_("i", "t"), *r.choice([[], [CONTINUE]])]))
    if r.random() < 0.3:
        body.append(if_([(bi("eq", var("i"), num(lo + k * r.randint(n // 2, n))), [BREAK])]))
    body.append(assign("last", var("i")))
    return [assign("t", lit(0)), assign("i", lit(0)), forr("i", [num(lo), num(hi)] + ([num(k)] if k != 1 else []), body),
            show_("i", "t", "last")]


def big_fori(r):
    t = "".join(r.choice("abcxyzABC 019éÉß|") for _ in range(r.choice([30, 70, 128])))
    return [assign("n", lit(0)), assign("u", lit("")),
            fori("p", lit(t), [inc_("n"), if_([(bi("eq", var("p"), lit(r.choice("abx"))), [CONTINUE])]), compound("u", "add", var("p"))]),
            show_("n", "u", "p")]


def inc_(x):
    return expr(inc(x))


def big_while(r):
    n = r.choice([30, 99, 200])
    body = [now_and_then("n", r.choice([2, 3, 8]), r.choice([[CONTINUE], [inc_("m")], [inc_("m"), CONTINUE]])),
            compound("t", r.choice(["add", "sub"]), var("n"))]
    if r.random() < 0.4:
        body.append(if_([(bi("gt", var("n"), lit(r.randint(n // 2, n + 5))), [BREAK])]))
    return [assign(x, lit(0)) for x in "nmt"] + [while_(bi("le", inc("n"), lit(n)), body), show_("n", "m", "t")]


def big_nested(r):
    a, b = r.choice([(11, 12), (4, 30), (30, 4)])
    return [assign("t", lit(0)),
            forr("i", [lit(1), lit(a)], [
                forr("k", [lit(b), lit(1), un("neg", lit(1))],
                     [if_([(bi("eq", var("k"), bi("mod", var("i"), lit(5))), [r.choice([BREAK, CONTINUE])])]), inc_("t")]),
                now_and_then("i", 3, [CONTINUE]), show_("i", "t")]),
            show_("t", "i", "k")]


def big_if(r):
    n = r.choice([12, 25, 40])
    x = r.choice([r.randint(0, n + 1), n - 1, n])
    return [assign("a", lit(x)),
            if_([(bi("eq", call("int", bi("add", lit(""), call("str", var("a")))), lit(i)), [expr(call("GetFilename", lit(f"b{i}")))])
                 for i in range(n)], [expr(call("GetFilename", lit("else")))]), show_("a")]


def big_select(r, many=None):
    many = r.random() < 0.5 if many is None else many
    n = r.choice([10, 11, 16, 26])
    names = [r.choice(["", "Opt ", "x"]) + str(i) for i in range(1, n + 1)]
    marks = {r.randrange(n)} if not many else set(r.sample(range(n), r.choice([0, 1, 3, n])))
    opts = [(lit(("|" if i in marks else "") + m), lit(f"d{i}"), lit(r.choice(["", f"i{i}.png"]))) for i, m in enumerate(names)]
    labels = list(names)
    if r.random() < 0.5:
        r.shuffle(labels)
    pb = r.choice([0.0, 0.5, 1.0])
    cases = [(lit(m), [expr(call("GetFilename", lit("c" + m)))] + ([BREAK] if r.random() < pb else [])) for m in labels]
    return [select(many, lit("D"), opts, cases, [expr(call("GetFilename", lit("default")))] if r.random() < 0.5 else None), show_()]


def big_deep(r, leaf=None, d=None):
    leaf = leaf or [expr(call("GetFilename", lit("leaf"))), *r.choice([[], [RETURN], [cancel(lit("m"))], [BREAK], [CONTINUE]])]
    kinds = ("if", "else", "for", "fori", "while", "case", "default", "many", "exec")
    if leaf[-1]["k"] in ("break", "continue"):      # not stray, and not in a script of their own
        kinds = ("if", "else", "for", "fori", "while")
        leaf = [forr("e", [lit(1), lit(2)], leaf + [show_("e")]), show_("e")]
    return deep(r, d or r.choice([6, 12, 20]), leaf, kinds)


def big_assign(r):
    xs = [f"v{i}" for i in range(r.choice([30, 80]))]
    out = [assign(x, lit(i)) for i, x in enumerate(xs)]
    for _ in range(r.choice([40, 120])):
        x, y = r.choice(xs), r.choice(xs)
        out.append(r.choice([assign(x, bi("mod", var(y), lit(100))), compound(x, "add", lit(1)), inc_(x), assign(x, bi("sub", var(x), var(y))),
                             assign(x, lit(7))]))
        if r.random() < 0.1:
            out.append(show_(x, y))
    return out + [show_(*r.sample(xs, 6))]


def big_exec(r):
    n = r.choice([20, 60])
    t1 = "a += i\n"
    b1 = [compound("a", "add", var("i"))]
    b2 = [assign(f"w{i}", lit(i)) for i in range(r.choice([30, 70]))] + [show_("a")]
    t2 = render(b2)
    t1 = render(b1)
    out = [assign("a", lit(0)), assign("i", lit(0)), forr("i", [lit(1), lit(n)], [exec_(lit(t1)), now_and_then("i", 9, [show_("a")])]),
            exec_(lit(t2)), show_("a")]
    return {"b": out, "execs": [(t1, b1), (t2, b2)]}


def big_pkgs(r):
    return [(f"{i:02d} {r.choice(['Core', 'core', 'Opt', 'É'])}", [f"{r.choice('abcdeABCDE')}{r.randint(0, 9)}.es{r.choice('pml')}"
             for _ in range(r.randint(0, 8))]) for i in range(r.choice([8, 14]))]


def big_installer(r):
    pk = big_pkgs(r)
    seen = {}       # one spelling for each plugin
    pk = [(n, [seen.setdefault(f.casefold(), f) for f in fs]) for n, fs in pk]
    b = B(r, {"kw": 1}, 0, (1, 1), {"pkgs": len(pk), "packages": pk, "kws": ALLKW, "budget": 1000})
    out = []
    for _ in range(r.choice([25, 60])):
        x = r.random()
        if x < 0.6:
            out.append(b.s_kw(0, False, False))
        elif x < 0.75:
            out.append(kw("Note", lit(f"note {len(out) % 17}")))
        elif x < 0.95:
            out.append(B14.s_tweak(B14(r, {}, 0), 0, False, False))
        else:
            out.append(show_())
    return {"b": [assign(x, lit(1)) for x in INTS] + [assign(x, lit("q")) for x in STRS] + out + [show_()], "pk": pk}


def big_args(r):
    n = r.choice([8, 20, 40])
    return [expr(call("DataFileExists", *[lit(f"f{i}") for i in range(n)])),
            assign("a", call("DataFileExists", *[bi("add", lit("f"), call("str", inc("n"))) for i in range(n)])), show_("a", "n")]


# Executions beyond any plausible limit on the number of iterations, branches, options, ...
def huge_while(r):
    n = r.choice([1100, 2100])
    body = [compound("t", "add", lit(r.choice([1, 3])))]
    if r.random() < 0.5:
        body.append(now_and_then("n", r.choice([7, 256, 500]), r.choice([[CONTINUE], [inc_("t")], [inc_("t"), CONTINUE]])))
    cond = r.choice([bi("lt", inc("n"), lit(n)), bi("ne", inc("n"), lit(n))])
    return [assign(x, lit(0)) for x in "nt"] + [while_(cond, body), show_("n", "t")]


def huge_range(r):
    k = r.choice([1, 1, 2, -1])
    n = r.choice([1030, 2100])
    return [assign("t", lit(0)), forr("i", [num(0), num(k * n)] + ([num(k)] if k != 1 else []),
                                      [inc_("t")] + r.choice([[], [now_and_then("i", 300, [CONTINUE])]]) + [assign("last", var("i"))]),
            show_("i", "t", "last")]


def huge_fori(r):
    t = "".join(r.choice("abcxyzABC 01") for _ in range(r.choice([1030, 1500])))
    return [assign("n", lit(0)), fori("p", lit(t), [inc_("n")]), show_("n", "p")]


def huge_if(r):
    n = r.choice([70, 140])
    x = r.choice([n - 1, n, n - 3, 66])
    return [assign("a", lit(x)),
            if_([(bi("eq", var("a"), lit(i)), [expr(call("GetFilename", lit(f"b{i}")))]) for i in range(n)],
                [expr(call("GetFilename", lit("else")))]), show_("a")]


def huge_select(r):
    many = r.random() < 0.6
    n = r.choice([65, 130])
    names = [f"x{i}" for i in range(n)]
    opts = [(lit(("|" if i == n - 1 or many and i % 3 == 0 else "") + m), lit(f"d{i}"), lit("")) for i, m in enumerate(names)]
    cases = [(lit(m), [expr(call("GetFilename", lit("c" + m)))] + ([BREAK] if r.random() < 0.9 else [])) for m in names]
    return [select(many, lit("D"), opts, cases, [expr(call("GetFilename", lit("default")))]), show_()]


def huge_body(r):
    n = r.choice([300, 600])
    out = [assign("a", lit(0)), assign("b", lit(0))]
    for i in range(n):
        out.append(r.choice([inc_("a"), compound("b", "add", var("a")), assign(f"v{i}", var("a")), assign("b", bi("mod", var("b"), lit(97)))]))
    return out + [show_("a", "b")]


def huge_deep(r):
    return big_deep(r, d=r.choice([30, 40]))


def huge_exec(r):
    b1 = [compound("a", "add", var("i"))]
    t1 = render(b1)
    out = [assign("a", lit(0)), forr("i", [lit(1), lit(r.choice([300, 520]))], [exec_(lit(t1))]), show_("a", "i")]
    return {"b": out, "execs": [(t1, b1)]}


def huge_text(r):
    t = "".join(r.choice(["a", "b\n", "\t", "\"", "é", "\\", "|", "x "]) for _ in range(r.choice([300, 1200])))
    return [assign("s", lit(t)), assign("u", bi("add", var("s"), lit(t))), expr(call("GetFilename", var("u"))), assign("n", call("len", var("u"))),
            show_("n")]


def huge_args(r):
    n = r.choice([70, 300])
    return [expr(call("DataFileExists", *[lit(f"f{i}") for i in range(n)])), show_()]


def huge_installer(r):
    n = r.choice([36, 66])
    pk = [("P", [f"p{i}.esp" for i in range(n)]), ("Q", [f"q{i}.esm" for i in range(20)])] + [(f"K{i}", [f"k{i}.esl"]) for i in range(n)]
    out = [kw("SelectAll")]
    for i in range(n):
        out.append(r.choice([kw("DeSelectPlugin", lit(f"P{i}.esp")), kw("RenamePlugin", lit(f"p{i}.esp"), lit(f"r{i}.esp")), kw("Note", lit(f"n{i}")),
                             expr(call("EditINI", lit("a.ini"), lit("S"), lit(f"k{i}"), lit(i))), kw("DeSelectSubPackage", lit(f"k{i}")),
                             expr(call("DisableINILine", lit("a.ini"), lit("S"), lit(f"k{i}")))]))
    return {"b": out + [show_()], "pk": pk}


HUGE = {
    "C01": [huge_body, huge_range], "C02": [huge_if], "C03": [huge_range, huge_range, huge_fori], "C04": [huge_while],
    "C05": [huge_while, huge_range, huge_deep], "C06": [huge_select], "C07": [huge_select], "C08": [huge_deep, huge_while],
    "C09": [huge_exec], "C10": [huge_body], "C11": [huge_deep], "C12": [huge_range, huge_body], "C13": [huge_installer],
    "C14": [huge_installer], "C15": [huge_args], "C22": [huge_installer, huge_while, huge_body], "C24": [huge_text, huge_body], "C16": [huge_body],
    "C18": [huge_body], "C23": [huge_body],
}


def huge(prop, r):
    res = r.choice(HUGE[prop])(r)
    if isinstance(res, list):
        res = {"b": res}
    b = res["b"]
    if prop == "C12":
        b = b + [compound("zz", "add", lit(1)), show_()]
    j = Job(b, res.get("pk") or pick_pkgs(r), execs=res.get("execs", []), style=any_style(r))
    j.fuel = 40000
    return scenario(j, {"p": 0, "budget": 0, "calm": 10**6, "kinds": []})


def large(prop, r):
    """An execution with many iterations, options, arguments, levels or names."""
    fs = {
        "C01": [big_assign], "C02": [big_if, big_deep], "C03": [big_range, big_range, big_fori, big_nested], "C04": [big_while],
        "C05": [big_nested, big_while, big_deep], "C06": [big_select], "C07": [big_select], "C08": [big_deep], "C09": [big_exec, big_deep],
        "C10": [big_deep, big_range, big_select, big_installer], "C11": [big_deep, big_select], "C12": [big_deep, big_range],
        "C13": [big_installer], "C14": [big_installer], "C15": [big_args], "C18": [big_fori], "C22": [big_installer, big_deep, big_assign],
    }.get(prop)
    if not fs:
        return None
    res = r.choice(fs)(r)
    if isinstance(res, list):
        res = {"b": res}
    block, execs, pk = res["b"], res.get("execs", []), res.get("pk") or pick_pkgs(r)
    if prop == "C15":
        block = [assign("n", lit(0))] + block
    if prop == "C12" or prop == "C22" and r.random() < 0.2:
        block = block + [compound("zz", "add", lit(1)), show_()]
    j = Job(copy.deepcopy(block), pk, execs=execs, style=any_style(r))
    pol = {"p": 0.02, "budget": 2, "calm": 10**6}
    pol["kinds"] = {"C10": ["rewind"], "C11": ["abort", "decline"], "C08": ["decline"], "C12": ["raise", "rewind"]}.get(prop, [])
    return scenario(j, pol, rw=prop in ("C10", "C12"))


GENS = {k[4:]: v for k, v in list(globals().items()) if k.startswith("gen_")}
