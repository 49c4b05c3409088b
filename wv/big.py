"""Numbers of any size and precision: operators (C17), conversions (C19) and literals (C21) recorded from the implementation
and judged by exact arithmetic in the specification (spec/WBig.tla, spec/WBigTable.tla)."""

from __future__ import annotations

import itertools
import math
import random
from decimal import Decimal
from fractions import Fraction

from . import tables, tlc
from .lang import COMP, cps

SYM = {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%", "pow": "^", "eq": "==", "ne": "!=", "lt": "<", "le": "<=",
       "gt": ">", "ge": ">="}


def limbs(n):
    out = []
    while n:
        n, r = divmod(n, 1000)
        out.append(r)
    return out


def z(n):
    return {"s": -1 if n < 0 else 1, "m": limbs(abs(n))}


def enc(v):
    """Value of the language as the specification of numbers of any size has it."""
    if isinstance(v, bool):
        return {"k": "b", "b": int(v)}
    if isinstance(v, int):
        return {"k": "i", "m": z(v)}
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            return {"k": "nan"}
        f, e = math.frexp(v)
        m = int(math.ldexp(f, 53))
        return {"k": "f", "m": z(m), "e": e - 53 if m else 0}
    if isinstance(v, str):
        return {"k": "s", "t": cps(v)}
    return {"k": "other"}


class Enc:
    value = staticmethod(enc)


_bench = None


def evaluate(rows):
    global _bench
    if _bench is None:
        _bench = tables.Bench()
        _bench.enc = Enc()
    outs = []
    for x in rows:
        o = _bench.run(x["script"])
        outs.append(o["v"] if o["k"] == "v" else {"k": "!" + o["k"]})
    return outs


def judge(rows, workers):
    return tlc.table("WBigTable", tables.TABLE_CFG,
                     {"rows": [{k: v for k, v in x.items() if k != "script"} for x in rows]}, workers)


# ------------------------------------------------------------------ numbers
def ordinary(v):
    return not isinstance(v, float) or v == 0 or 1e-30 < abs(v) < 1e40


def text(v):
    """An expression for the number."""
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v) if v >= 0 else f"(-{-v})"
    s = repr(abs(v))
    if "e" in s or "E" in s:
        s = format(Decimal(abs(v)), "f")
        if "." not in s:
            s += ".0"
    return s if v >= 0 and not math.copysign(1, v) < 0 else f"(-{s})"


def integer(r):
    k = r.random()
    if k < 0.15:
        n = r.choice([0, 1, 2, 3, 7, 10, 255])
    elif k < 0.5:
        b = r.choice([31, 32, 53, 63, 64, 16, 24, 30, 62, 100])
        n = 2 ** b + r.randint(-2, 2)
    elif k < 0.6:
        n = 10 ** r.randint(1, 30) + r.randint(-1, 1)
    else:
        n = r.randint(0, 10 ** r.randint(1, 35))
    return n if r.random() < 0.65 else -n


def real(r):
    k = r.random()
    if k < 0.25:
        x = r.choice([0.1, 0.2, 0.3, 0.7, 1.1, 2.675, 1e-3, 3.14159, 0.5, 1.0, 100.0, 33.333, 1 / 3, 2 / 3, 1e15 + 0.3, 0.001953125,
                      5e-05, 1e16, 123456789.123456789, 2.0 ** 53, 2.0 ** 53 - 1, 1e22, 9.99, 1e-10, 4.35, 1.005])
    elif k < 0.5:
        x = r.randint(0, 10 ** r.randint(1, 6)) / 10 ** r.randint(0, 6)
    elif k < 0.6:
        x = r.randint(0, 4096) / 2 ** r.randint(0, 20)
    elif k < 0.8:
        x = r.random() * 10 ** r.randint(-6, 12)
    else:
        x = float(r.randint(1, 10 ** 6)) + r.choice([0.0, 0.25, 0.1, 1e-9])
    return x if r.random() < 0.7 or x == 0 else -x      # no negative zero in the specification


def fits(v):
    return isinstance(v, float) or abs(v) < 2 ** 53


def operation(op, a, b, form=0):
    """Row of a binary operation, or None when the specification does not say."""
    mixed = isinstance(a, float) or isinstance(b, float)
    x = {"op": op, "a": enc(a), "b": enc(b)}
    if op in ("div", "mod") and b == 0:
        return None
    if op in ("add", "sub", "mul", "mod") and mixed or op == "div":
        if not (fits(a) and fits(b)):
            return None
    if op == "mod":
        if mixed and abs(Fraction(a) / Fraction(b)) > 10 ** 12:
            return None
        x["w"] = z(math.floor(Fraction(a) / Fraction(b)))
    if op == "pow":
        if mixed or b < 0 or b > 60 or abs(a) ** b > 10 ** 120:
            return None
        x["n"] = int(b)
    if op not in COMP:
        form = form % 2
    s = SYM[op]
    x["script"] = {0: f"x = {text(a)} {s} {text(b)}\n", 1: f"p = {text(a)}\nq = {text(b)}\nx = p {s} q\n",
                   2: f"x = {text(a)}\nx {COMP.get(op)} {text(b)}\n"}[form]
    return x


def unary(op, a, form=0):
    x = {"op": op, "a": enc(a)}
    t = text(a)
    if op == "neg":
        if isinstance(a, bool):
            return None
        x["script"] = f"p = {t}\nx = -p\n" if form else f"x = -({t})\n"
    elif op == "truth":
        x["script"] = f"If {t}\n    x = True\nElse\n    x = False\nEndIf\n" if form else f"x = not (not {t})\n"
    else:
        if op == "str" and isinstance(a, float) and (abs(a) >= 1e16 or 0 < abs(a) < 1e-4) or isinstance(a, bool) and op == "str":
            return None
        if op == "int":
            x["w"] = z(int(a))
        if op == "float" and isinstance(a, int) and abs(a) > 10 ** 60:
            return None
        x["script"] = f"x = {op}({t})\n" if not form else f"p = {t}\nx = p.str()\n" if op == "str" else f"p = {t}\nx = {op}(p)\n"
    return x


def from_text(op, s, form=0):
    return {"op": op, "a": {"k": "s", "t": cps(s)}, "script": f"p = '{s}'\nx = {op}(p)\n" if form else f"x = {op}('{s}')\n"}


def literal(s, form=0):
    return {"op": "lit", "a": {"k": "s", "t": cps(s)}, "script": [f"x = {s}\n", f"x = ({s})\n", f"y = {s}\nx = y\n"][form]}


def digits(r, n=None):
    n = n or r.choice([1, 3, 8, 9, 10, 15, 16, 17, 19, 20, 25, 33])
    return "".join(r.choice("0123456789") for _ in range(n))


def some_number(r):
    return real(r) if r.random() < 0.5 else integer(r)


def rows_C17(r, n):
    edge = [0, 1, -1, 2, 7, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 53 - 1, 2 ** 53, 2 ** 53 + 1, 2 ** 63, -2 ** 63 - 1, 2 ** 64, 10 ** 18,
            10 ** 30, True, False]
    fl = [0.1, 0.2, -0.1, 0.3, 1.5, 2.0 ** 53, 1e15 + 0.3, 3.3, 1 / 3, 0.001953125, 0.0]
    out = []
    for op in SYM:
        for a, b in itertools.product(edge, edge):
            if r.random() < (0.25 if n < 10000 else 1):
                out.append(operation(op, a, b, r.randint(0, 2)))
        for a, b in itertools.product(fl, fl + edge[:5]):
            if r.random() < (0.5 if n < 10000 else 1):
                out.append(operation(op, a, b, r.randint(0, 2)))
                out.append(operation(op, b, a, r.randint(0, 2)))
    for v in edge + fl:
        for f in (0, 1):
            out += [unary("neg", v, f), unary("truth", v, f)]
    for _ in range(n):
        op = r.choice(list(SYM))
        a, b = some_number(r), some_number(r)
        if op == "pow":
            a, b = integer(r), r.randint(0, 12)
        k = r.random()
        if k < 0.15:
            b = a
        elif k < 0.25:
            b = a + 1 if isinstance(a, int) else math.nextafter(a, math.inf)
        elif k < 0.3 and isinstance(a, int) and abs(a) < 2 ** 53:
            b = float(a)
        out.append(operation(op, a, b, r.randint(0, 2)))
        if r.random() < 0.1:
            out.append(unary(r.choice(["neg", "truth"]), a, r.randint(0, 1)))
    return out


def rows_C19(r, n):
    out = []
    for _ in range(n):
        k = r.random()
        f = r.randint(0, 1)
        if k < 0.5:
            out.append(unary(r.choice(["str", "str", "int", "float"]), some_number(r), f))
        elif k < 0.75:
            out.append(from_text("int", r.choice(["", "-", "+"]) + digits(r), f))
        else:
            s = r.choice(["", "-", "+"]) + digits(r, r.randint(1, 20))
            out.append(from_text("float", s + (r.choice([".", ".5", ".0"]) if r.random() < 0.3 else "." + digits(r, r.randint(1, 20))
                                               if r.random() < 0.8 else ""), f))
    return out


def rows_C21(r, n):
    out = [literal(s, f) for s in ("0.1", "0.2", "0.30000000000000004", "3.14159", "2.675", "1.005", "9007199254740993.0", "4294967296",
                                   "9223372036854775808", "0.000001", "123456789012345678901234567890", "1.10", "0.1000")
           for f in range(3)]
    for _ in range(n):
        s = digits(r)
        if r.random() < 0.6:
            s = digits(r, r.randint(1, 18)) + "." + digits(r, r.randint(1, 18))
        out.append(literal(s, r.randint(0, 2)))
    return out


MAKE = {"C17": (rows_C17, 5000, 40000), "C19": (rows_C19, 4000, 30000), "C21": (rows_C21, 3000, 30000)}


def rows(prop, seed, tier):
    f, quick, thorough = MAKE[prop]
    out = f(random.Random(f"{seed}:{prop}:big"), quick if tier == "quick" else thorough)
    return [x for x in out if x is not None and all(x.get(v, {}).get("k") != "nan" for v in "ab")]
