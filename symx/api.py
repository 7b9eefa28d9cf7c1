"""The harness interface S: one harness function, two interpretations.

Symbolic mode: inputs are solver variables, checks are solver queries.
Concrete mode: inputs are read from a replay file, glimpse is imported unpatched,
and checks are evaluated on the numbers the real code returns.
"""
import datetime
import math
import traceback
from fractions import Fraction

import numpy as np

TOL = 1e-6  # symbolic: a difference above this is a violation
CTOL = 5e-7  # concrete: rounding allowance (relative to magnitude, at least absolute)


class CheckFailed(Exception):
    pass


class Skip(BaseException):
    """Concrete inputs do not satisfy an assumption."""


class Base:
    symbolic = False

    def __init__(self, config=None):
        self.config = config or {}

    def reals(self, name, shape, lo, hi):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            o[i] = self.real(name + "".join("_%d" % k for k in i), lo, hi)
        return self.array(o.tolist()) if o.size else self.array(np.zeros(shape))

    def ints(self, name, shape, lo, hi):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            o[i] = self.int(name + "".join("_%d" % k for k in i), lo, hi)
        return self.array(o.tolist())

    def bools(self, name, n):
        return [self.bool("%s_%d" % (name, i)) for i in range(n)]

    def choice(self, name, options):
        """One of a concrete list (forks)."""
        return options[int(self.int(name, 0, len(options) - 1))]

    def dst(self):
        """Local time is central European time (with daylight saving) in 2020."""
        import os
        import time

        from . import times

        os.environ["TZ"] = "CET-1CEST,M3.5.0,M10.5.0/3"
        time.tzset()
        times.LOCAL["dst"] = True

    def implies(self, a, b):
        return self.or_(self.not_(a), b)


class Concrete(Base):
    def __init__(self, values, config=None):
        super().__init__(config)
        self.values = values
        self.failures = []
        self.nchecks = 0
        self.reached = []
        self.unused = set(values)

    def _get(self, name, default):
        self.unused.discard(name)
        return self.values.get(name, default)

    def real(self, name, lo, hi):
        v = float(Fraction(self._get(name, Fraction(lo))))
        return np.float64(min(max(v, lo), hi))

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def angle(self, name, lo=None, hi=None):
        """Degrees; any angle. The model fixes its cosine and sine."""
        c = float(Fraction(self._get(name + ".c", 1)))
        s = float(Fraction(self._get(name + ".s", 0)))
        return np.float64(math.degrees(math.atan2(s, c)))

    def array(self, x, dtype=None):
        return np.array(x, dtype=dtype)

    def assume(self, c):
        if not c:
            raise Skip()

    def rounding(self, bound):
        pass

    def concrete(self, x):
        return x

    def _fail(self, label, detail):
        self.failures.append((label, detail))

    def check(self, cond, label):
        self.nchecks += 1
        if not bool(np.all(cond)):
            self._fail(label, "condition is false")

    def eq(self, a, b, label, tol=None, exact=False):
        self.nchecks += 1
        try:
            x, y = np.asarray(a), np.asarray(b)
        except ValueError:
            self._fail(label, "ragged value")
            return
        if x.shape != y.shape:
            self._fail(label, "shape %s, expected %s" % (x.shape, y.shape))
            return
        if x.dtype.kind in "OUSM" or y.dtype.kind in "OUSM":
            ok = all(_same(p, q, tol) for p, q in zip(x.flat, y.flat))
        else:
            t = CTOL if tol is None else tol
            x, y = x.astype(float), y.astype(float)
            with np.errstate(all="ignore"):
                close = np.abs(x - y) <= t + 1e-9 * np.maximum(np.abs(x), np.abs(y))
            same = (x == y) | (np.isnan(x) & np.isnan(y))
            ok = bool(np.all(close | same))
        if not ok:
            self._fail(label, "got %s, expected %s" % (_short(a), _short(b)))

    def same(self, a, b):
        """Whether two numbers are equal for all inputs of this path (no check)."""
        return bool(abs(float(a) - float(b)) <= CTOL + 1e-9 * abs(float(a)))

    def fail(self, label):
        self.nchecks += 1
        self._fail(label, "reached")

    def reach(self, label="reach"):
        self.reached.append(label)

    def raises(self, exc, fn, label):
        self.nchecks += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:
            self._fail(label, "raised %s: %s" % (type(e).__name__, e))
            return
        self._fail(label, "did not raise")

    and_ = staticmethod(lambda *a: all(bool(np.all(v)) for v in a))
    or_ = staticmethod(lambda *a: any(bool(np.any(v)) for v in a))
    not_ = staticmethod(lambda a: not a)
    ite = staticmethod(lambda c, a, b: a if c else b)
    floor = staticmethod(lambda x: np.floor(x))
    ceil = staticmethod(lambda x: np.ceil(x))
    sqrt = staticmethod(lambda x: np.sqrt(x))
    cos = staticmethod(lambda x: np.cos(x))
    sin = staticmethod(lambda x: np.sin(x))
    exp = staticmethod(lambda x: np.exp(x))
    min = staticmethod(lambda a, b: min(a, b))
    max = staticmethod(lambda a, b: max(a, b))
    abs = staticmethod(abs)

    def floori(self, x):
        return int(math.floor(x))

    def isnan(self, x):
        return bool(np.isnan(x))

    def datetime(self, name, lo, hi, unit=1):
        return EPOCH + datetime.timedelta(microseconds=self.int(name, lo, hi) * unit)

    def timedelta(self, name, lo, hi, unit=1):
        return datetime.timedelta(microseconds=self.int(name, lo, hi) * unit)

    def us(self, x):
        """Datetime -> microseconds since the epoch; timedelta -> microseconds."""
        if isinstance(x, datetime.timedelta):
            return x // datetime.timedelta(microseconds=1)
        return (x - EPOCH) // datetime.timedelta(microseconds=1)

    def rand(self, name):
        """A draw from [0, 1)."""
        v = self.real(name, 0, 1)
        return v

    def objarray(self, x):
        o = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            o[i] = v
        return o


EPOCH = datetime.datetime(2020, 1, 1)


def _same(p, q, tol=None):
    if isinstance(p, (int, float, np.number)) and isinstance(q, (int, float, np.number)):
        if p == q or (p != p and q != q):
            return True
        return abs(p - q) <= (CTOL if tol is None else tol) + 1e-9 * max(abs(p), abs(q))
    return type(p) == type(q) and p == q or p == q


def _short(x):
    s = np.array2string(np.asarray(x), threshold=40) if isinstance(x, (np.ndarray, list, tuple)) else repr(x)
    return s.replace("\n", " ")[:300]


def in_repo(tb):
    """Innermost traceback frame: ('repo'|'harness', 'file:line')."""
    frames = traceback.extract_tb(tb)
    where = "harness"
    last = None
    for f in frames:
        if "/glimpse/" in f.filename and "/verif/" not in f.filename:
            where, last = "repo", f
        elif "/verif/props" in f.filename:
            where, last = "harness", f
    last = last or frames[-1]
    return where, "%s:%s" % (last.filename, last.lineno)
