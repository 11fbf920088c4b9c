"""Value of a closed expression at sample points: two expressions that agree at enough points are the same function of their
arguments (polynomials, powers, quotients); used to compare formulas however they are written."""
import math
from interp import *
import terms


class Unknown(Exception):
    pass


FN = {"sqrt": math.sqrt, "fabs": abs, "abs": abs, "log": math.log, "log2": math.log2, "log10": math.log10, "exp": math.exp, "floor": math.floor,
      "ceil": math.ceil, "fmin": min, "fmax": max, "min": min, "max": max, "isnan": lambda x: x != x, "isinf": lambda x: abs(x) == math.inf,
      "acos": math.acos, "cos": math.cos, "sin": math.sin}


def power(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return math.inf
    except ValueError:
        if a == 0 and b < 0:
            return math.inf
        return math.nan


def num(t, atom):
    v = atom(t)
    if v is not None:
        return v
    o, a = t.op, t.a
    if o == "c":
        return a[0]
    if o == "null":
        return 0
    if o == "+":
        r = 0
        for m, k in a:
            p = k
            for x in m:
                p = p * num(x, atom)
            r += p
        return r
    if o == "*":
        p = 1
        for x in a:
            p *= num(x, atom)
        return p
    if o == "inv":
        x = num(a[0], atom)
        return 1.0 / x if x else math.inf
    if o == "idiv":
        x, y = num(a[0], atom), num(a[1], atom)
        if not y:
            raise Unknown("division by zero")
        return int(x // y)
    if o == "mod":
        return num(a[0], atom) % num(a[1], atom)
    if o == "phi":
        return num(a[1] if num(a[0], atom) else a[2], atom)
    if o == "==":
        return int(num(a[0], atom) == num(a[1], atom))
    if o == "<":
        return int(num(a[0], atom) < num(a[1], atom))
    if o == "<=":
        return int(num(a[0], atom) <= num(a[1], atom))
    if o == "!":
        return int(not num(a[0], atom))
    if o == "&":
        return int(all(num(x, atom) for x in a))
    if o == "|":
        return int(any(num(x, atom) for x in a))
    if o == "call":
        f = str(a[0]).split("::")[-1]
        xs = [num(x, atom) for x in a[1:] if isinstance(x, T)]
        if f == "pow" and len(xs) == 2:
            return power(*xs)
        if f in FN:
            try:
                return FN[f](*xs)
            except (ValueError, TypeError, OverflowError):
                return math.nan
    raise Unknown(show(t)[:160])


def close(x, y, tol=1e-9):
    if x == y:
        return True
    if x != x or y != y or abs(x) == math.inf or abs(y) == math.inf:
        return False
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))
