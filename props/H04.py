"""Splitting arrays by a mask."""
import itertools

import numpy as np

from symx.runner import H

from glimpse import helpers as h


def runs(mask):
    out, i = [], 0
    while i < len(mask):
        j = i
        while j + 1 < len(mask) and mask[j + 1] == mask[i]:
            j += 1
        out.append((mask[i], list(range(i, j + 1))))
        i = j + 1
    return out


def split(S):
    """The runs of equal mask values, in order; a closed loop joins the last to the first."""
    n = S.config["n"]
    circular, include = S.config["circular"], S.config["include"]
    mask = S.bools("m", n)
    axis = S.config.get("axis", 0)
    a = S.reals("a", n if not S.config.get("two") else ((n, 2) if axis == 0 else (2, n)), -9, 9)
    keep = a.copy()
    m = [bool(S.concrete(b)) for b in mask]
    marr = S.array(m)
    got = h.boolean_split(a, marr, axis=axis, circular=circular, include=include)
    S.eq(a, keep, "array unchanged")
    want = runs(m)
    if circular and len(want) > 1 and want[0][0] == want[-1][0]:
        want[0] = (want[0][0], want[-1][1] + want[0][1])
        want.pop()
    if include != "all":
        want = [w for w in want if w[0] == (include == "true")]
    S.check(len(got) == len(want), "number of groups")
    for g, (_, idx) in zip(got, want):
        S.eq(g, a[idx] if axis == 0 else a[:, idx], "members of the group")
    S.reach()


HARNESSES = [
    H("split", split, [dict(n=n, circular=c, include=i) for n in (1, 2, 4) for c in (False, True) for i in ("all", "true", "false")]
      + [dict(n=3, circular=c, include="true", two=True, axis=x) for c in (False, True) for x in (0, 1)],
      thorough=[dict(n=n, circular=c, include=i) for n in (6, 7) for c in (False, True) for i in ("all", "true", "false")],
      bounds="arrays of up to 4 (thorough: 7) elements, every mask"),
]
