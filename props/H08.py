"""List completion, nearest neighbors in sorted lists, JSON text, paths."""
import itertools
import json

import numpy as np

from symx.runner import H

from glimpse import helpers as h


def formatted(S):
    """Truncated, repeated or padded to the length; the argument is left alone."""
    n, length, default = S.config["n"], S.config["length"], S.config["default"]
    x = [S.real("x%d" % i, -9, 9) for i in range(n)]
    d = S.real("d", -9, 9) if default else None
    kind = S.config["kind"]
    arg = {"list": list(x), "tuple": tuple(x), "array": S.array(x) if x else S.array(x)}[kind]
    keep = list(arg)
    bad = length and 0 < n < length and not default and length % n
    if bad:
        S.raises(ValueError, lambda: h.format_list(arg, length=length, default=d), "lengths that do not divide are refused")
        S.reach()
        return
    out = h.format_list(arg, length=length, default=d)
    S.check(isinstance(out, list), "a list")
    S.check(len(arg) == n and (kind != "list" or all(a is b for a, b in zip(arg, keep))), "argument unchanged")
    if not length:
        want = x
    elif n >= length:
        want = x[:length]
    elif default:
        want = x + [d] * (length - n)
    else:
        want = (x * length)[:length] if n else []
    S.check(len(out) == len(want), "length")
    for a, b in zip(out, want):
        S.eq(a, b, "elements")
    S.check(h.format_list(None, length=length) is None, "None stays None")
    v = h.format_list(S.real("s", -9, 9), length=2)
    S.check(len(v) == 2, "scalars are repeated")
    S.eq(v[0], v[1], "scalars are repeated")
    S.reach()


def typed(S):
    """Integers remain integers."""
    x = [S.concrete(S.int("x%d" % i, -2, 2)) for i in range(2)]
    out = h.format_list(x, length=4, dtype=float)
    for i in range(4):
        S.eq(out[i] * 1.0, x[i % 2] * 1.0, "converted elements")
    S.reach()


def nearest(S):
    """The nearest element of a sorted list, the first of two equally near."""
    n = S.config["n"]
    x = [S.real("x0", -8, 8)]
    for i in range(1, n):
        x.append(x[-1] + S.real("g%d" % i, 2**-6, 4))
    y = S.reals("y", 2, -12, 25)
    idx = h.sorted_nearest(S.array(x), y)
    S.check(len(idx) == 2, "an index for each value")
    for j in range(2):
        k = S.concrete(idx[j])
        S.check(0 <= k < n, "index in range")
        for i in range(n):
            d, e = S.abs(y[j] - x[k]), S.abs(y[j] - x[i])
            S.check(d <= e + 1e-9, "nothing is nearer")
    S.reach()


def repeated(S):
    """Ties in the list do not matter to the distance."""
    x = S.reals("x", 3, -8, 8)
    S.assume(S.and_(x[0] <= x[1], x[1] <= x[2]))
    y = S.reals("y", 1, -12, 12)
    k = S.concrete(h.sorted_nearest(x, y)[0])
    for i in range(3):
        S.check(S.abs(y[0] - x[k]) <= S.abs(y[0] - x[i]), "nothing is nearer")
    S.reach()


HARNESSES = [
    H("formatted", formatted, [dict(n=n, length=m, default=d, kind=k) for n in (0, 1, 2, 3) for m in (None, 1, 2, 3, 4, 5, 6, 8) for d in (False, True) for k in ("list", "tuple")],
      bounds="lists of 0-3 elements to lengths up to 6"),
    H("typed", typed, bounds="2 integers"),
    H("nearest", nearest, [dict(n=n) for n in (1, 2, 3, 4)], bounds="lists of 1-4 increasing values, 2 queries"),
    H("repeated", repeated, bounds="3 values with ties"),
]
