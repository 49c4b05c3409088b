"""Abstract syntax of Wizard scripts: construction, rendering to script text and
flattening to the job format of the TLA+ specification.

Expressions are dictionaries {op, k, ...} as in spec/WExpr.tla except that variables
are named ("x": "name"), statements are dictionaries {k, ...} as in spec/Wizard.tla
except that blocks are nested lists of statements.
"""

from __future__ import annotations

import copy

import json
import random


def cps(s: str) -> list[int]:
    return [ord(c) for c in s]


def txt(c) -> str:
    return "".join(map(chr, c))


# ------------------------------------------------------------------ expressions


def lit(v):
    """Literal from a Python value (bool, int, float with a dyadic value or str)."""
    if isinstance(v, bool):
        return {"op": "lit", "v": [0, int(v)], "py": v}
    if isinstance(v, int):
        return {"op": "lit", "v": [1, v], "py": v}
    if isinstance(v, float):
        p, q = v.as_integer_ratio()
        return {"op": "lit", "v": [2, p, q], "py": v}
    if isinstance(v, str):
        return {"op": "lit", "v": [3] + cps(v), "py": v}
    raise TypeError(v)


SUBS = {"op": "lit", "v": [5], "py": None}


def var(x):
    return {"op": "var", "x": x}


def un(op, a):
    return {"op": op, "k": [a]}


def bi(op, a, b):
    return {"op": op, "k": [a, b]}


def call(n, *args):
    return {"op": "call", "n": n, "k": list(args)}


def meth(r, n, *args):
    return {"op": "meth", "n": n, "k": [r, *args]}


def inc(x, post=True, op="inc"):
    return {"op": op, "x": x, "post": post}


def slc(a, s=None, e=None, k=None, colon2=False):
    parts = [s, e, k]
    return {
        "op": "slice",
        "k": [a] + [p for p in parts if p is not None],
        "h": [int(p is not None) for p in parts],
        "colon2": colon2,
    }


BIN = {
    "add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%", "pow": "^",
    "and": "and", "or": "or", "eq": "==", "ne": "!=", "lt": "<", "le": "<=",
    "gt": ">", "ge": ">=", "eqi": "==:", "nei": "!=:", "lti": "<:", "lei": "<=:",
    "gti": ">:", "gei": ">=:",
}


def quote(s: str, q='"', raw=False) -> str:
    """A literal denoting s (the plain way of writing it; the literals themselves are
    the subject of C21)."""
    r = []
    for c in s:
        if c == "\\":
            r.append("\\\\")
        elif raw and c != q:
            r.append(c)
        elif c == q or ord(c) < 32:
            r.append("\\x%02x" % ord(c))
        else:
            r.append(c)
    return q + "".join(r) + q


ATOMS = ("lit", "var", "call", "meth", "idx", "slice")


def is_atom(e):
    if e["op"] == "lit" and isinstance(e.get("py"), (int, float)):
        return not isinstance(e["py"], bool) and e["py"] >= 0 or isinstance(e["py"], bool)
    return e["op"] in ATOMS


def ren(e, top=False) -> str:
    """Text of an expression, parenthesised so that it parses as it is."""
    if is_atom(e):
        return ren0(e)
    return "(" + ren0(e) + ")"


def under(e) -> str:
    """Text of an operand of a unary operator, which binds tighter than an index."""
    b = e
    while b["op"] in ("meth", "idx", "slice"):
        if b["op"] != "meth":
            return "(" + ren0(e) + ")"
        b = b["k"][0]
    return ren(e)


def ren0(e) -> str:
    op = e["op"]
    if op == "lit":
        if e["v"][0] == 5:
            return "SubPackages"
        v = e["py"]
        if isinstance(v, bool):
            return "True" if v else "False"
        if isinstance(v, str):
            return quote(v, e.get("q", '"'), e.get("raw", False))
        if isinstance(v, float):
            assert "e" not in repr(v)
            return repr(v)
        return str(v)
    if op == "var":
        return e["x"]
    if op in ("inc", "dec"):
        s = "++" if op == "inc" else "--"
        return e["x"] + s if e["post"] else s + e["x"]
    if op == "neg":
        return "-" + under(e["k"][0])
    if op == "not":
        return "not " + under(e["k"][0])
    if op == "idx":
        return ren(e["k"][0]) + "[" + ren(e["k"][1]) + "]"
    if op == "slice":
        it = iter(e["k"][1:])
        s, en, k = [ren(next(it)) if h else "" for h in e["h"]]
        r = ren(e["k"][0]) + "[" + s + ":" + en
        if e["h"][2] or e.get("colon2"):
            r += ":" + k
        return r + "]"
    if op == "call":
        return e["n"] + "(" + ", ".join(ren(a) for a in e["k"]) + ")"
    if op == "meth":
        r = e["k"][0]
        s = ren(r)
        if r["op"] == "lit" and r["v"][0] in (1, 2):
            s = "(" + ren0(r) + ")"
        return s + "." + e["n"] + "(" + ", ".join(ren(a) for a in e["k"][1:]) + ")"
    if op == "in":
        return ren(e["k"][0]) + " in " + ren(e["k"][1])
    if op == "ini":
        return ren(e["k"][0]) + " in " + ren(e["k"][1]) + " :"
    return ren(e["k"][0]) + " " + BIN[op] + " " + ren(e["k"][1])


def safe(e) -> str:
    """Text of an expression that can neither swallow nor be swallowed by what is on
    the neighbouring lines."""
    s = ren(e)
    return s if e["op"] == "lit" and not s.startswith("(") and s[0] in "\"'" or s.startswith("(") else "(" + s + ")"


def alone(e) -> str:
    """Text of an expression that is a statement: neither a part of the one on the line
    before nor continued by the one on the next line."""
    s = ren0(e)
    if e["op"] in ("call", "inc", "dec"):
        return s
    return "(" + s + ")" if s[0] in "-+[" or s[-1].isalnum() or s[-1] == "_" else s


# ------------------------------------------------------------------- statements


def expr(e):
    return {"k": "expr", "e": e}


def assign(x, e):
    return {"k": "assign", "x": x, "e": e}


def compound(x, o, e):
    return {"k": "compound", "x": x, "o": o, "e": e}


def kw(n, *args):
    return {"k": "kw", "n": n, "args": list(args)}


def exec_(*args):
    return {"k": "exec", "args": list(args)}


def if_(conds, els=None):
    """conds: list of (expression, block)."""
    return {"k": "if", "conds": [{"e": e, "b": b} for e, b in conds], "els": els}


def forr(x, args, b):
    return {"k": "forr", "x": x, "args": list(args), "b": b}


def fori(x, e, b):
    return {"k": "fori", "x": x, "e": e, "b": b}


def while_(e, b):
    return {"k": "while", "e": e, "b": b}


def select(many, desc, opts, cases, default=None):
    """opts: list of (a, b, c); cases: list of (expression, block)."""
    return {
        "k": "select", "many": many, "desc": desc,
        "opts": [{"k": list(o)} for o in opts],
        "cases": [{"e": e, "b": b} for e, b in cases], "default": default,
    }


BREAK = {"k": "break"}
CONTINUE = {"k": "continue"}
RETURN = {"k": "return"}


def cancel(*args):
    return {"k": "cancel", "args": list(args)}


def broken(text="a .= 3"):
    return {"k": "broken", "text": text}


COMP = {"add": "+=", "sub": "-=", "mul": "*=", "div": "/=", "mod": "%=", "pow": "^="}



COMMENTS = ["", " note", " If Else EndIf", ' "', " 'x", ";;", " \\n", " a = 1, [0]", " é", " x\\"]


class Rendered:
    """Style: 1 options of a select on lines of their own, 2 comments, blank lines and odd
    spaces, 4 statements continued on the next line (statements then have no line that
    could be compared), 8 n: seed of these."""

    def __init__(self, eol="\n", style=0):
        self.lines = []
        self.eol = eol
        self.style = style
        self.rng = random.Random(style) if style & 6 else None

    def add(self, s, ind=0):
        r = self.rng
        if r is None:
            n = len(self.lines) + 1
            self.lines += ("    " * ind + s).split("\n")
            return n
        inside = self.lines and self.lines[-1].endswith("\\")
        more = s.endswith("\\")
        if self.style & 4 and not s.startswith("Else"):
            s = self.split(s)
        if self.style & 2:
            if not inside:
                for _ in range(r.choice([0, 0, 0, 0, 1, 2])):
                    self.lines.append(r.choice(["", "", "  ", "\t", ";" + r.choice(COMMENTS), " \t; x"]))
            s = r.choice(["    " * ind, "    " * ind, "", "\t" * ind, " ", "\t "]) + s
            if not more:
                s += r.choice(["", "", "", " ", "\t", ";" + r.choice(COMMENTS), " ; " + r.choice(COMMENTS)])
                if s.endswith("\\"):      # only the end of a comment
                    s += " "
        else:
            s = "    " * ind + s
        n = len(self.lines) + 1
        self.lines += s.split("\n")
        return -1 if self.style & 4 else n

    def split(self, s):
        out, q, i = "", "", 0
        while i < len(s):
            c = s[i]
            if q:
                if c == "\\":
                    out += c
                    i += 1
                    c = s[i]
                elif c == q:
                    q = ""
            elif c in "\"'":
                q = c
            elif c == " " and i < len(s) - 2 and self.rng.random() < 0.2:
                c = self.rng.choice([" \\\n", " \\\n  ", " \\\n\t"])
            out += c
            i += 1
        return out

    def text(self):
        if self.rng is not None and self.style & 2 and self.rng.random() < 0.3:
            self.lines += self.rng.choice([[""], ["", ""], ["; end"], ["\t"]])
        return self.eol.join(self.lines) + (self.eol if self.lines else "")


def render_block(block, r: Rendered, ind=0):
    i = 0
    while i < len(block):
        s = block[i]
        if s["k"] in ("break", "continue", "return"):
            s = block[i] = dict(s)  # not shared: it gets a line of its own
        render_stmt(s, r, ind)
        nxt = block[i + 1] if i + 1 < len(block) else None
        if nxt is not None and nxt["k"] in ("expr", "exec"):
            if (s["k"] == "kw" and not s["args"]) or (s["k"] == "cancel" and not s["args"]):
                # they would be read as one statement: keep them apart
                block.insert(i + 1, {"k": "if", "conds": [{"e": lit(False), "b": []}], "els": None})
            elif s["k"] == "expr" and s["e"]["op"] in ("inc", "dec") and nxt["k"] == "expr" and nxt["e"]["op"] not in ("call", "inc", "dec"):
                block.insert(i + 1, {"k": "if", "conds": [{"e": lit(False), "b": []}], "els": None})
        i += 1


def render_stmt(s, r: Rendered, ind=0):
    k = s["k"]
    if k == "expr":
        s["line"] = r.add(alone(s["e"]), ind)
    elif k == "assign":
        s["line"] = r.add(s["x"] + " = " + safe(s["e"]), ind)
    elif k == "compound":
        s["line"] = r.add(s["x"] + " " + COMP[s["o"]] + " " + safe(s["e"]), ind)
    elif k == "kw":
        s["line"] = r.add(s["n"] + (" " + ", ".join(safe(a) for a in s["args"]) if s["args"] else ""), ind)
    elif k == "exec":
        s["line"] = r.add("Exec(" + ", ".join(ren(a) for a in s["args"]) + ")", ind)
    elif k == "if":
        for i, c in enumerate(s["conds"]):
            c["line"] = r.add(("If " if i == 0 else "Elif ") + safe(c["e"]), ind)
            render_block(c["b"], r, ind + 1)
        s["line"] = s["conds"][0]["line"]
        if s["els"] is not None:
            r.add("Else", ind)
            render_block(s["els"], r, ind + 1)
        r.add("EndIf", ind)
    elif k == "forr":
        a = [safe(e) for e in s["args"]]
        t = f"For {s['x']} from {a[0]} to {a[1]}" + (f" by {a[2]}" if len(a) > 2 else "")
        s["line"] = r.add(t, ind)
        render_block(s["b"], r, ind + 1)
        r.add("EndFor", ind)
    elif k == "fori":
        s["line"] = r.add(f"For {s['x']} in " + safe(s["e"]), ind)
        render_block(s["b"], r, ind + 1)
        r.add("EndFor", ind)
    elif k == "while":
        s["line"] = r.add("While " + safe(s["e"]), ind)
        render_block(s["b"], r, ind + 1)
        r.add("EndWhile", ind)
    elif k == "select":
        n = "SelectMany " if s["many"] else "SelectOne "
        multi = r.style & 1
        head = n + safe(s["desc"])
        if not multi:
            t = head
            for o in s["opts"]:
                t += ", " + ", ".join(safe(e) for e in o["k"])
            s["line"] = r.add(t, ind)
            for o in s["opts"]:
                o["line"] = s["line"]
        else:
            s["line"] = r.add(head + ", \\", ind)
            for i, o in enumerate(s["opts"]):
                last = i == len(s["opts"]) - 1
                o["line"] = r.add(", ".join(safe(e) for e in o["k"]) + ("" if last else ", \\"), ind + 1)
        for c in s["cases"]:
            c["line"] = r.add("Case " + safe(c["e"]), ind + 1)
            render_block(c["b"], r, ind + 2)
        if s["default"] is not None:
            r.add("Default", ind + 1)
            render_block(s["default"], r, ind + 2)
        r.add("EndSelect", ind)
    elif k in ("break", "continue", "return"):
        s["line"] = r.add(k.capitalize(), ind)
    elif k == "cancel":
        s["line"] = r.add("Cancel" + (" " + safe(s["args"][0]) if s["args"] else ""), ind)
    elif k == "broken":
        s["line"] = r.add(s["text"], ind)
    else:
        raise ValueError(k)


def render(block, eol="\n", style=0) -> str:
    r = Rendered(eol, style)
    render_block(block, r)
    return r.text()


# ------------------------------------------------------------------------- jobs


def walk_expr(e, f):
    f(e)
    for c in e.get("k", []):
        walk_expr(c, f)


def stmt_exprs(s):
    k = s["k"]
    if k in ("expr", "assign", "compound", "fori", "while"):
        return [s["e"]]
    if k in ("kw", "exec", "forr", "cancel"):
        return list(s["args"])
    if k == "if":
        return [c["e"] for c in s["conds"]]
    if k == "select":
        return [s["desc"]] + [e for o in s["opts"] for e in o["k"]] + [c["e"] for c in s["cases"]]
    return []


def sub_blocks(s):
    k = s["k"]
    if k in ("forr", "fori", "while"):
        return [s["b"]]
    if k == "if":
        return [c["b"] for c in s["conds"]] + ([s["els"]] if s["els"] is not None else [])
    if k == "select":
        return [c["b"] for c in s["cases"]] + ([s["default"]] if s["default"] is not None else [])
    return []


def walk(block, f):
    for s in block:
        f(s)
        for b in sub_blocks(s):
            walk(b, f)


# Names that differ in little, look like keywords, or are those of functions.
NAMES = [
    [a + b + c for a in "fF" for b in "oO" for c in ["o", "O", "oo", "oO", "Oo", "0", "o0", "o1", "_", "__"]],
    ["_" * n for n in range(1, 12)] + ["_" + c for c in "abc123XYZ"] + [c + "_" for c in "abcxyz"],
    ["If1", "iff", "if", "IF", "EndIfs", "endif", "Elif_", "ELSE", "forr", "for", "While2", "case", "Cases", "_Default",
     "inn", "In", "From", "fromm", "By", "bye", "Not", "nott", "AND", "andy", "Or", "orb", "true", "TRUE", "False0", "Trueish",
     "note", "Notes", "exec", "Execute", "Cancels", "return", "breaks", "CONTINUE", "SelectAllX", "subpackages", "SubPackage"],
    ["len", "int", "str", "float", "find", "lower", "GetFilename", "DataFileExists", "CompareGameVersion", "EditINI",
     "GetFolder", "DisableINILine", "rfind", "GetLength", "startswith", "endswith", "GetPluginStatus", "CompareSEVersion",
     "CompareWBVersion", "CompareGEVersion", "GetEspmStatus", "GetPluginLoadOrder"],
    ["x" + "0" * i + str(n) for i in range(4) for n in range(8)],
    ["n" * i + s for i in range(1, 40, 3) for s in ("", "_", "1")],
    ["self", "None", "state", "context", "value", "class", "def", "lambda", "__init__", "__class__", "variables", "name",
     "import", "is", "yield", "print", "type", "id", "list", "dict", "object", "parent", "factory", "Value", "Void", "void"],
]

EMPTY_START = {"sp": [], "pl": [], "ren": [], "notes": [], "td": [], "tm": []}


def sev_hist(sev):
    """The severities of the issues set one by one on runner 1 before the start."""
    return [{"r": 1, "i": i + 1, "s": s, "at": 0} for i, s in enumerate(sev)]


class Job:
    """A script with its environment."""

    def __init__(self, block, pkgs=(), sev=None, execs=(), style=0, eol="\n", init=None,
                 env=None, meta=None):
        self.block = block
        self.pkgs = [(n, list(fs)) for n, fs in pkgs]
        self.sev = list(sev) if sev is not None else [1] * 6
        self.execs = list(execs)  # (text, block or None)
        self.style = style
        self.eol = eol
        self.init = dict(init or {})  # name -> encoded value
        self.start = None  # what the initial state has besides variables
        self.runner, self.hist = 1, None  # history of severities, if it is not just sev
        self.env = env or {}
        self.meta = meta or {}
        self.fold = False
        self.api = "run"  # how the interpreter is put together
        self.manner = {}  # how the environment does what it does
        self.fuel = None  # steps of the specification
        for t, b in self.execs:
            if b is not None and any("line" not in x for x in b):
                render(b)
        self.script = render(block, eol, style)
        self._names()

    def _names(self):
        names = set(self.init)

        def fe(e):
            if "x" in e:
                names.add(e["x"])

        def fs(s):
            if "x" in s:
                names.add(s["x"])
            for e in stmt_exprs(s):
                walk_expr(e, fe)

        walk(self.block, fs)
        for _, b in self.execs:
            if b is not None:
                walk(b, fs)
        self.names = sorted(names)
        self.index = {n: i + 1 for i, n in enumerate(self.names)}

    def hoisted(self):
        """The same job with its leading plain assignments made by the caller, in the
        state that the script starts from."""
        b, init = list(self.block), dict(self.init)
        while len(b) > 1 and b[0]["k"] == "assign" and b[0]["e"]["op"] == "lit":
            s = b.pop(0)
            init[s["x"]] = s["e"]["v"]
        j = Job(b, self.pkgs, self.sev, self.execs, self.style, self.eol, init, self.env, self.meta)
        j.fold, j.api, j.manner, j.fuel = self.fold, self.api, self.manner, self.fuel
        return j

    def renamed(self, rng):
        """The same job with other names of variables (scripts run by Exec() are texts
        somewhere in it: a job with some is left alone)."""
        if self.execs:
            return self
        pool = [n for n in rng.choice(NAMES) if n not in self.names]
        if len(pool) < len(self.names):
            return self
        new = dict(zip(self.names, rng.sample(pool, len(self.names))))

        def over(e):
            if isinstance(e, dict):
                return {k: new[v] if k == "x" and isinstance(v, str) else over(v) for k, v in e.items()}
            return [over(x) for x in e] if isinstance(e, list) else tuple(over(x) for x in e) if isinstance(e, tuple) else e

        j = Job(over(self.block), self.pkgs, self.sev, (), self.style, self.eol, {new[n]: v for n, v in self.init.items()},
                self.env, self.meta)
        j.fold, j.api, j.manner, j.fuel = self.fold, self.api, self.manner, self.fuel
        return j

    def on(self, runner, pkgs, fold, hist):
        """The same job on a runner of a session."""
        j = copy.copy(self)
        j.pkgs, j.fold, j.runner, j.hist = pkgs, fold, runner, hist
        return j

    def starting(self, init, start):
        """The same job from a state with these variables and other contents."""
        j = copy.copy(self)
        j.init, j.start = dict(init), start
        j._names()
        return j

    def flat_expr(self, e):
        op = e["op"]
        if op == "lit":
            return {"op": op, "v": e["v"]}
        r = {"op": op}
        if "x" in e:
            r["x"] = self.index[e["x"]]
        if "k" in e:
            r["k"] = [self.flat_expr(c) for c in e["k"]]
        if op in ("call", "meth"):
            r["n"] = e["n"]
            r["t"] = cps(e["n"])
        if op == "slice":
            r["h"] = e["h"]
        return r

    def to_json(self, id, events=None, rw=False, fuel=4000, jumps=()):
        blocks, stmts = [], []
        fx = self.flat_expr

        def blk(b):
            if b is None:
                return 0
            blocks.append(None)
            me = len(blocks)
            ids = []
            for s in b:
                t = {"k": s["k"], "line": s["line"]}
                stmts.append(t)
                ids.append(len(stmts))
                k = s["k"]
                if k in ("expr", "assign", "compound", "fori", "while"):
                    t["e"] = fx(s["e"])
                if k in ("kw", "exec", "forr", "cancel"):
                    t["args"] = [fx(a) for a in s["args"]]
                if "x" in s:
                    t["x"] = self.index[s["x"]]
                if k == "compound":
                    t["o"] = s["o"]
                if k == "kw":
                    t["n"] = s["n"]
                if k in ("forr", "fori", "while"):
                    t["b"] = blk(s["b"])
                if k == "if":
                    t["conds"] = [{"e": fx(c["e"]), "b": blk(c["b"]), "line": c["line"]} for c in s["conds"]]
                    t["els"] = blk(s["els"])
                if k == "select":
                    t["many"] = s["many"]
                    t["desc"] = fx(s["desc"])
                    t["opts"] = [{"k": [fx(e) for e in o["k"]], "line": o["line"]} for o in s["opts"]]
                    t["cases"] = [{"e": fx(c["e"]), "b": blk(c["b"]), "line": c["line"]} for c in s["cases"]]
                    t["default"] = blk(s["default"])
            blocks[me - 1] = ids
            return me

        root = blk(self.block)
        execs = [{"t": cps(t), "b": blk(b)} for t, b in self.execs]
        return {
            "id": id, "names": [cps(n) for n in self.names],
            "blocks": blocks, "stmts": stmts, "root": root, "execs": execs,
            "pkgs": [{"name": cps(n), "files": [cps(f) for f in fs]} for n, fs in self.pkgs],
            "r": self.runner, "hist": self.hist if self.hist is not None else sev_hist(self.sev),
            "init": {"v": [self.init.get(n, []) for n in self.names], **(self.start or EMPTY_START)},
            "trace": events is not None,
            "events": [e["e"] for e in events] if events is not None else [],
            "plan": [e["r"] for e in events if e["r"] is not None] if events is not None else [],
            "rw": rw, "fuel": self.fuel or fuel, "jumps": list(jumps), "fold": self.fold, "api": self.api,
            "env": self.env.get("tla", {"rets": [[1, 0]], "budget": 0, "kinds": [], "maxplan": 0}),
        }
