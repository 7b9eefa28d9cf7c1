"""Symbolic datetimes and timedeltas: integer microseconds from a fixed epoch."""
import datetime

import numpy as np
import z3

from . import core
from .core import Dtd, Sym, SymInt, SymReal

EPOCH = datetime.datetime(2020, 1, 1)
US = datetime.timedelta(microseconds=1)


def td_us(x):
    if isinstance(x, SDelta):
        return x.us
    if isinstance(x, datetime.timedelta):
        return x // US
    return None


def dt_us(x):
    if isinstance(x, SDate):
        return x.us
    if isinstance(x, datetime.datetime):
        return (x - EPOCH) // US
    return None


class SDelta(Dtd):
    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us

    def total_seconds(self):
        return self.us / np.float64(1e6)

    @property
    def days(self):
        return self.us // (86400 * 10**6)

    @property
    def seconds(self):
        return (self.us // 10**6) % 86400

    @property
    def microseconds(self):
        return self.us % 10**6

    def __add__(self, o):
        u = td_us(o)
        if u is not None:
            return SDelta(self.us + u)
        u = dt_us(o)
        if u is not None:
            return SDate(self.us + u)
        if isinstance(o, int) and o == 0:
            return self
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        u = td_us(o)
        return NotImplemented if u is None else SDelta(self.us - u)

    def __rsub__(self, o):
        u = td_us(o)
        if u is not None:
            return SDelta(u - self.us)
        u = dt_us(o)
        return NotImplemented if u is None else SDate(u - self.us)

    def __neg__(self):
        return SDelta(-self.us)

    def __abs__(self):
        return SDelta(abs(self.us))

    def __mul__(self, k):
        if isinstance(k, (int, np.integer, SymInt)):
            return SDelta(self.us * k)
        if isinstance(k, (float, np.floating, SymReal)):
            r = core.rint(self.us * k)
            if isinstance(r, Sym):
                return SDelta(SymInt(z3.simplify(z3.ToInt(r.e))))
            return SDelta(int(r))
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        u = td_us(o)
        if u is not None:
            r = self.us / (np.float64(u) if not isinstance(u, Sym) else u)
            return r
        if isinstance(o, (int, np.integer)):
            r = core.rint(self.us / np.float64(o))
            return SDelta(SymInt(z3.simplify(z3.ToInt(r.e)))) if isinstance(r, Sym) else SDelta(int(r))
        return self * (1 / o)

    def __rtruediv__(self, o):
        u = td_us(o)
        return NotImplemented if u is None else np.float64(u) / self.us

    def __floordiv__(self, o):
        u = td_us(o)
        if u is not None:
            return self.us // u
        return SDelta(self.us // o)

    def __rfloordiv__(self, o):
        u = td_us(o)
        return u // self.us

    def __mod__(self, o):
        return SDelta(self.us % td_us(o))

    def __bool__(self):
        return bool(self.us != 0)

    def __hash__(self):
        return hash(self.us)

    def __reduce__(self):
        raise core.Limit("pickle")

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "SDelta(%r)" % (self.us,)


LOCAL = {"dst": False}


class SDate(Dtd):
    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us

    def __add__(self, o):
        u = td_us(o)
        return NotImplemented if u is None else SDate(self.us + u)

    __radd__ = __add__

    def __sub__(self, o):
        u = td_us(o)
        if u is not None:
            return SDate(self.us - u)
        u = dt_us(o)
        return NotImplemented if u is None else SDelta(self.us - u)

    def __rsub__(self, o):
        u = dt_us(o)
        return NotImplemented if u is None else SDelta(u - self.us)

    def __hash__(self):
        return hash(self.us)

    def __deepcopy__(self, memo):
        return self

    def timestamp(self):
        """Naive datetimes are local times, as in Python."""
        if not LOCAL["dst"]:
            return self.us / np.float64(1e6)
        # central European time in 2020 (fold=0): UTC+2 from 29 March to 25 October
        a, b = (88 * 86400 + 3 * 3600) * 10**6, (298 * 86400 + 3 * 3600) * 10**6
        summer = core.and_(self.us >= a, self.us < b)
        return (self.us - core.ite(summer, 7200 * 10**6, 3600 * 10**6)) / np.float64(1e6)

    def __repr__(self):
        return "SDate(%r)" % (self.us,)


def _cmp(get, op):
    def f(self, o):
        u = get(o)
        if u is None:
            return NotImplemented
        return getattr(self.us, op)(u) if isinstance(self.us, Sym) else (
            getattr(u, _SWAP[op])(self.us) if isinstance(u, Sym) else getattr(self.us, op)(u)
        )

    return f


_SWAP = {"__lt__": "__gt__", "__le__": "__ge__", "__gt__": "__lt__", "__ge__": "__le__",
         "__eq__": "__eq__", "__ne__": "__ne__"}
for _o in _SWAP:
    setattr(SDelta, _o, _cmp(td_us, _o))
    setattr(SDate, _o, _cmp(dt_us, _o))


class _DM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (datetime.datetime, SDate))

    def __call__(cls, *a, **k):
        return datetime.datetime(*a, **k)

    def __getattr__(cls, n):
        return getattr(datetime.datetime, n)


class _TM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (datetime.timedelta, SDelta))

    def __call__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        parts = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not any(isinstance(p, Sym) for p in parts):
            return datetime.timedelta(*[p.item() if isinstance(p, np.generic) else p for p in parts])
        us = (
            days * 86400 * 10**6 + seconds * 10**6 + microseconds + milliseconds * 1000
            + minutes * 60 * 10**6 + hours * 3600 * 10**6 + weeks * 7 * 86400 * 10**6
        )
        if isinstance(us, SymReal):
            us = SymInt(z3.simplify(z3.ToInt(core.rint(us).e)))
        return SDelta(us)

    def __getattr__(cls, n):
        return getattr(datetime.timedelta, n)


class DateTime(metaclass=_DM):
    pass


class TimeDelta(metaclass=_TM):
    pass


class DTModule:
    """Stands in for the module `datetime`."""

    datetime = DateTime
    timedelta = TimeDelta

    def __getattr__(self, n):
        return getattr(datetime, n)
