"""Symbolic values and the path explorer.

The real functions of glimpse are *executed* with these values. Every
truth-value test on a symbolic condition is a branch: the explorer asks z3 which
sides are feasible under the path condition and (re-)executes the function once
per feasible path. Nothing of glimpse is modelled by hand here.
"""
import math
import numbers
import operator
import os
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # /opt/venv python: z3 lives in the verification venv
    sys.path.append(_VT)
    import z3

import numpy as np

sys.set_int_max_str_digits(0)

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)

NAN = np.float64("nan")
INF = np.float64("inf")


class PathEnd(BaseException):
    """The current path is infeasible (or was cut by an assumption)."""


class Limit(BaseException):
    """The engine cannot follow the code any further on this path."""


class Budget(BaseException):
    """Time is up for this exploration."""


# --------------------------------------------------------------------------- context


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.algebraic = 0

    def asdict(self):
        return dict(self.__dict__)


CTX = None  # current path context


def ctx():
    return CTX


class Ctx:
    """State of one symbolic path."""

    def __init__(self, prefix, stats, timeout_ms=8000, deadline=None):
        self.prefix = list(prefix)
        self.trace = []
        self.pos = 0
        self.new = []
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.model = None
        self.inputs = {}  # name -> (kind, term(s))
        self.input_order = []
        self.maybe_infeasible = False
        self.incomplete = []
        self.fresh = 0
        self.fcache = {}  # (fname, expr id) -> result
        self.angles = {}
        self.bounds = {}  # var name -> (c, s, scale) registered angle variables
        self.squares = {}  # var name -> term of its square
        self.keep = []  # keep z3 asts alive (ids are cache keys)
        self.npc = 0
        self.rounding = 0

    # -- solver access
    def _check(self, *assumptions, timeout=None):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()
        t = time.time()
        if timeout is not None:
            self.solver.set("timeout", timeout)
        try:
            r = self.solver.check(*assumptions)
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            if timeout is not None:
                self.solver.set("timeout", self.timeout_ms)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def add(self, cond):
        """Add a condition to the path."""
        cond = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_true(cond):
            return
        self.solver.add(cond)
        self.npc += 1
        if self.model is not None:
            if not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None
        if z3.is_false(cond):
            raise PathEnd()

    @property
    def replaying(self):
        return self.pos < len(self.prefix)

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathEnd()
            else:
                self.maybe_infeasible = True
        return self.model

    def feasible(self, cond):
        """sat / unsat / unknown for path & cond."""
        if self.model is not None and z3.is_true(
            self.model.eval(cond, model_completion=True)
        ):
            return z3.sat
        self.solver.push()
        self.solver.add(cond)
        try:
            r = self._check()
            if r == z3.sat:
                self._side_model = self.solver.model()
        finally:
            self.solver.pop()
        return r

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.add(cond.e)
            if not self.replaying:
                self.get_model()
        elif not bool(cond):
            raise PathEnd()

    def branch(self, e):
        """Decide a boolean term on this path."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] != "b":
                raise Limit("non-deterministic re-execution")
            self.pos += 1
            self.trace.append(d)
            self.add(e if d[1] else z3.Not(e))
            return d[1]
        self.stats.branches += 1
        ne = z3.Not(e)
        model = self.get_model()
        if model is not None:
            v = model.eval(e, model_completion=True)
            first = True if z3.is_true(v) else (False if z3.is_false(v) else None)
        else:
            first = None
        if first is None:
            rt = self.feasible(e)
            rf = self.feasible(ne)
            if rt == z3.unsat and rf == z3.unsat:
                raise PathEnd()
            first = rt != z3.unsat
            other = rf if first else z3.unsat
        else:
            other = self.feasible(ne if first else e)
        if other != z3.unsat:
            self.new.append(self.trace + [("b", not first)])
        self.trace.append(("b", first))
        self.prefix.append(("b", first))
        self.pos += 1
        self.add(e if first else ne)
        return first

    def choose_value(self, e):
        """Fork over the feasible values of an integer term."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        tried = 0
        while True:
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                if d[0] != "v":
                    raise Limit("non-deterministic re-execution")
                self.pos += 1
                self.trace.append(d)
                v, taken = d[1], d[2]
                self.add(e == v if taken else e != v)
                if taken:
                    return v
                continue
            self.stats.branches += 1
            tried += 1
            if tried > 200:
                raise Limit("too many values for a symbolic integer")
            model = self.get_model()
            if model is None:
                raise Limit("solver unknown while choosing an integer value")
            mv = model.eval(e, model_completion=True)
            if not z3.is_int_value(mv):
                raise Limit("no integer model value")
            v = mv.as_long()
            if self.feasible(e != v) != z3.unsat:
                self.new.append(self.trace + [("v", v, False)])
            self.trace.append(("v", v, True))
            self.prefix.append(("v", v, True))
            self.pos += 1
            self.add(e == v)
            return v

    def concretize(self, e, why):
        """Pin a term to one value (recorded: the path is then only sampled)."""
        e = z3.simplify(e)
        v = const_value(e)
        if v is not None:
            return v
        self.incomplete.append(why)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] != "c":
                raise Limit("non-deterministic re-execution")
            self.pos += 1
            self.trace.append(d)
            v = d[1]
        else:
            model = self.get_model()
            if model is None:
                raise Limit("solver unknown while concretising: " + why)
            v = model_value(model, e)
            # prefer a short value
            if isinstance(v, Fraction) and v.denominator != 1:
                for q in (1, 8, 1024):
                    w = Fraction(round(v * q), q)
                    if self.feasible(e == z3.RealVal(str(w))) == z3.sat:
                        v = w
                        break
            self.trace.append(("c", v))
            self.prefix.append(("c", v))
            self.pos += 1
        self.add(e == lift_like(v, e))
        if not self.replaying:
            self.get_model()
        return v

    def new_real(self, name=None):
        self.fresh += 1
        return z3.Real("%s!%d" % (name or "t", self.fresh))

    def new_int(self, name=None):
        self.fresh += 1
        return z3.Int("%s!%d" % (name or "k", self.fresh))

    def new_bool(self, name=None):
        self.fresh += 1
        return z3.Bool("%s!%d" % (name or "p", self.fresh))


def lift_like(v, e):
    if z3.is_bool(e):
        return z3.BoolVal(bool(v))
    if e.sort() == z3.IntSort():
        return z3.IntVal(int(v))
    return z3.RealVal(str(Fraction(v)))


def model_value(model, e):
    v = model.eval(e, model_completion=True)
    return const_value(v)


def const_value(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


# --------------------------------------------------------------------------- values

_DISPATCH = {}  # filled by arr.py: "ufunc", "function"


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    """Base class of symbolic scalars."""

    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e=0):
        if isinstance(e, (int, float, np.number)):
            # type(x)(0), as numpy scalars allow
            e = z3.IntVal(int(e)) if isinstance(self, SymInt) else z3.RealVal(Fraction(float(e)))
        elif isinstance(e, Sym):
            e = e.e if e.e.sort() != z3.IntSort() or isinstance(self, SymInt) else z3.ToReal(e.e)
        self.e = e

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return _DISPATCH["ufunc"](ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return _DISPATCH["function"](func, args, kwargs)

    def __repr__(self):
        return "<%s>" % str(z3.simplify(self.e))[:120]

    def __str__(self):
        return self.__repr__()

    def __format__(self, spec):
        return self.__repr__()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    def __reduce__(self):
        raise Limit("pickling a symbolic value")

    # numpy scalar look
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self


def lift(x):
    """Concrete or symbolic number -> z3 arithmetic term, or None if not finite."""
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            return None
        return z3.RealVal(str(Fraction(f)))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    return NotImplemented


def _real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def _pair(a, b):
    """Bring two arithmetic terms to one sort."""
    if a.sort() != b.sort():
        return _real(a), _real(b)
    return a, b


def wrap(e):
    """z3 term -> symbolic value, or a concrete numpy scalar if it is a constant."""
    if z3.is_bool(e):
        if z3.is_true(e):
            return np.True_
        if z3.is_false(e):
            return np.False_
        return SymBool(e)
    if e.sort() == z3.IntSort():
        if z3.is_int_value(e):
            return np.int64(e.as_long()) if abs(e.as_long()) < 2**62 else e.as_long()
        return SymInt(e)
    return SymReal(e)


def _fold(e):
    return e


def _isnan(x):
    return isinstance(x, (float, np.floating)) and math.isnan(x)


def _isinf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return CTX.branch(self.e)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return wrap(z3.simplify(z3.And(self.e, o.e)))
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return wrap(z3.simplify(z3.Or(self.e, o.e)))
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return wrap(z3.simplify(z3.Xor(self.e, o.e)))
        if isinstance(o, (bool, np.bool_)):
            return ~self if o else self
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return wrap(z3.simplify(self.e == o.e))
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        if isinstance(o, (int, float, np.number, SymNum)):
            return self.num() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not_(r)

    def __hash__(self):
        return hash(bool(self))

    def num(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def _ar(name):
        def f(self, o):
            return getattr(self.num(), name)(o)

        return f

    for _n in (
        "add radd sub rsub mul rmul truediv rtruediv lt le gt ge floordiv mod pow"
    ).split():
        locals()["__%s__" % _n] = _ar("__%s__" % _n)
    del _n

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def astype(self, dtype):
        return _DISPATCH["cast"](self, np.dtype(dtype))

    def any(self):
        return self

    def all(self):
        return self

    @property
    def dtype(self):
        return np.dtype(bool)


class SymNum(Sym):
    __slots__ = ()

    # -- helpers
    @staticmethod
    def _mk(e):
        return SymInt(e) if e.sort() == z3.IntSort() else SymReal(e)

    def _nonfinite(self, o, op):
        """o is nan or inf."""
        if _isnan(o):
            return NAN
        o = np.float64(o)
        if op in ("add", "radd", "rsub"):
            return o
        if op == "sub":
            return -o
        if op in ("mul", "rmul"):
            if self > 0:
                return o
            if self < 0:
                return -o
            return NAN
        if op == "truediv":
            return np.float64(0.0)
        if op == "rtruediv":
            return o if self >= 0 else -o
        raise Limit("non-finite operand of " + op)

    def _arith(self, o, op):
        if isinstance(o, np.ndarray) or isinstance(o, (list, tuple)):
            return NotImplemented
        if isinstance(o, Dtd):
            return NotImplemented
        b = lift(o)
        if b is NotImplemented:
            return NotImplemented
        if b is None:
            return self._nonfinite(o, op)
        a = self.e
        if op in ("rsub", "rtruediv", "rfloordiv", "rmod", "rpow"):
            a, b = b, a
            op = op[1:]
        if op in ("add", "radd"):
            a, b = _pair(a, b)
            return self._mk(_rounded(_s(a + b)))
        if op == "sub":
            a, b = _pair(a, b)
            return self._mk(_rounded(_s(a - b)))
        if op in ("mul", "rmul"):
            a, b = _pair(a, b)
            return self._mk(_rounded(_s(a * b)))
        if op == "truediv":
            a, b = _real(a), _real(b)
            bv = z3.simplify(b)
            if z3.is_rational_value(bv):
                if bv.numerator_as_long() == 0:
                    return _div0(a)
            elif CTX.branch(compare_terms(b, z3.RealVal(0), "eq")):
                return _div0(a)
            return SymReal(_rounded(_s(a / b)))
        if op in ("floordiv", "mod"):
            return _floordivmod(a, b)[0 if op == "floordiv" else 1]
        raise Limit("operator " + op)

    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        b = lift(o)
        if b is NotImplemented:
            return NotImplemented
        if b is None:
            if _isnan(o):
                return op == "ne"
            pos = o > 0
            return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos, "eq": False, "ne": True}[op]
        a, b = _pair(self.e, b)
        return wrap(z3.simplify(compare_terms(a, b, op)))

    def __add__(self, o):
        return self._arith(o, "add")

    def __radd__(self, o):
        return self._arith(o, "radd")

    def __sub__(self, o):
        return self._arith(o, "sub")

    def __rsub__(self, o):
        return self._arith(o, "rsub")

    def __mul__(self, o):
        return self._arith(o, "mul")

    def __rmul__(self, o):
        return self._arith(o, "rmul")

    def __truediv__(self, o):
        return self._arith(o, "truediv")

    def __rtruediv__(self, o):
        return self._arith(o, "rtruediv")

    def __floordiv__(self, o):
        return self._arith(o, "floordiv")

    def __rfloordiv__(self, o):
        return self._arith(o, "rfloordiv")

    def __mod__(self, o):
        return self._arith(o, "mod")

    def __rmod__(self, o):
        return self._arith(o, "rmod")

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return self._mk(_s(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        if isinstance(self, SymReal) and _nonlinear(self.e):
            return self if self >= 0 else -self
        return self._mk(z3.simplify(z3.If(self.e >= 0, self.e, -self.e)))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __bool__(self):
        return CTX.branch(self.e != 0)

    def __hash__(self):
        e = z3.simplify(self.e)
        v = const_value(e)
        if v is None:
            if isinstance(self, SymInt):
                v = CTX.choose_value(e)
            else:
                v = CTX.concretize(e, "hash of a symbolic real")
        return hash(v)

    def __float__(self):
        v = const_value(z3.simplify(self.e))
        if v is None:
            v = CTX.concretize(self.e, "float() of a symbolic value")
        return float(v)

    def is_integer(self):
        return wrap(z3.simplify(z3.IsInt(_real(self.e))))

    def any(self):
        return self != 0

    all = any

    def sum(self):
        return self

    min = max = mean = sum

    def round(self, decimals=0):
        return rint(self) if not decimals else rint(self * 10**decimals) / 10**decimals

    def astype(self, dtype):
        return _DISPATCH["cast"](self, np.dtype(dtype))

    def conjugate(self):
        return self

    def flatten(self):
        return _DISPATCH["array"]([self])


class SymInt(SymNum):
    __slots__ = ()

    @property
    def dtype(self):
        return np.dtype("int64")

    def __index__(self):
        return CTX.choose_value(self.e)

    __int__ = __index__
    __trunc__ = __index__

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    __ceil__ = __floor__

    def __invert__(self):
        return -self - 1

    def _bits(f):
        def g(self, o):
            if isinstance(o, np.ndarray):
                return NotImplemented
            if isinstance(o, SymBool):
                o = o.num()
            if isinstance(o, (float, SymReal)):
                return NotImplemented
            if not isinstance(o, SymInt):
                o = int(o)
                if f is operator.and_ and o >= 0 and o & (o + 1) == 0:
                    return self % (o + 1)
                if f is operator.lshift and o >= 0:
                    return self * 2**o
                if f is operator.rshift and o >= 0:
                    return self // 2**o
            return f(int(self), int(o))

        return g

    __and__ = __rand__ = _bits(operator.and_)
    __or__ = __ror__ = _bits(operator.or_)
    __xor__ = __rxor__ = _bits(operator.xor)
    __lshift__ = _bits(operator.lshift)
    __rshift__ = _bits(operator.rshift)
    del _bits


class SymReal(SymNum):
    __slots__ = ()

    @property
    def dtype(self):
        return np.dtype("float64")

    def __int__(self):
        return CTX.choose_value(trunc_int(self.e))

    def __trunc__(self):
        return SymInt(trunc_int(self.e))

    def __round__(self, n=None):
        r = rint(self)
        if n is None:
            return SymInt(z3.simplify(z3.ToInt(r.e)))
        return self.round(n)

    def __floor__(self):
        return SymInt(z3.simplify(z3.ToInt(self.e)))

    def __ceil__(self):
        return SymInt(z3.simplify(-z3.ToInt(-self.e)))


numbers.Number.register(SymNum)
numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)


class Dtd:  # symbolic datetimes/timedeltas subclass this (times.py)
    __slots__ = ()


def _rounded(e):
    """With a rounding model: the exact result plus an unknown, bounded error."""
    r = CTX.rounding
    if not r or e.sort() != z3.RealSort() or _isval(e):
        return e
    key = ("round", e.get_id())
    if key not in CTX.fcache:
        d = z3.Real("round!%d" % len(CTX.fcache))
        CTX.add(z3.And(d >= -r, d <= r))
        CTX.fcache[key] = (e, e + d)
    return CTX.fcache[key][1]


def _isval(e):
    return z3.is_int_value(e) or z3.is_rational_value(e)


def _s(e):
    """Fold constants and units; leave the rest to the solver's own rewriter."""
    ch = e.children()
    if all(_isval(c) for c in ch):
        return z3.simplify(e)
    if len(ch) == 2:
        a, b = ch
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            if _isval(a) and const_value(a) == 0:
                return b
            if _isval(b) and const_value(b) == 0:
                return a
        elif k == z3.Z3_OP_SUB:
            if _isval(b) and const_value(b) == 0:
                return a
        elif k == z3.Z3_OP_MUL:
            for u, w in ((a, b), (b, a)):
                if _isval(u):
                    v = const_value(u)
                    if v == 1:
                        return w
                    if v == 0:
                        return u
        elif k == z3.Z3_OP_DIV:
            if _isval(b) and const_value(b) == 1:
                return a
            if _isval(a) and const_value(a) == 0:
                return a
    return e


def _div0(a):
    # numpy semantics: x/0 is +-inf, 0/0 is nan
    if CTX.branch(compare_terms(a, z3.RealVal(0), "gt")):
        return INF
    if CTX.branch(compare_terms(a, z3.RealVal(0), "lt")):
        return -INF
    return NAN


def _floordivmod(a, b):
    if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
        bv = z3.simplify(b)
        if z3.is_int_value(bv):
            n = bv.as_long()
            if n == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if n > 0:
                q = a / b
            else:
                q = (-a) / (-b)
        else:
            if CTX.branch(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            q = a / b if CTX.branch(b > 0) else (-a) / (-b)
        return SymInt(_s(q)), SymInt(_s(a - b * q))
    a, b = _real(a), _real(b)
    bv = z3.simplify(b)
    if not z3.is_rational_value(bv):
        if CTX.branch(b == 0):
            return NAN, NAN
    elif bv.numerator_as_long() == 0:
        return NAN, NAN
    q = z3.ToReal(z3.ToInt(a / b))
    return SymReal(_s(q)), SymReal(_s(a - b * q))


def trunc_int(e):
    if e.sort() == z3.IntSort():
        return e
    return z3.simplify(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def not_(c):
    if isinstance(c, SymBool):
        return ~c
    return not c


def and_(*cs):
    """Conjunction of concrete and symbolic truth values, without forking."""
    out = []
    for c in cs:
        if isinstance(c, np.ndarray):
            out.extend(c.flat)
        elif isinstance(c, (list, tuple)):
            out.extend(c)
        else:
            out.append(c)
    es = []
    for c in out:
        if isinstance(c, SymBool):
            es.append(c.e)
        elif isinstance(c, SymNum):
            es.append(c.e != 0)
        elif not c:
            return False
    if not es:
        return True
    return wrap(z3.simplify(z3.And(*es)))


def or_(*cs):
    out = []
    for c in cs:
        if isinstance(c, np.ndarray):
            out.extend(c.flat)
        elif isinstance(c, (list, tuple)):
            out.extend(c)
        else:
            out.append(c)
    es = []
    for c in out:
        if isinstance(c, SymBool):
            es.append(c.e)
        elif isinstance(c, SymNum):
            es.append(c.e != 0)
        elif c:
            return True
    if not es:
        return False
    return wrap(z3.simplify(z3.Or(*es)))


def ite(c, a, b):
    """If-then-else without forking where both sides are finite numbers."""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        ea = a.e if isinstance(a, SymBool) else z3.BoolVal(bool(a))
        eb = b.e if isinstance(b, SymBool) else z3.BoolVal(bool(b))
        return wrap(z3.simplify(z3.If(c.e, ea, eb)))
    ea, eb = lift(a), lift(b)
    if ea is None or eb is None or ea is NotImplemented or eb is NotImplemented:
        return a if bool(c) else b
    ea, eb = _pair(ea, eb)
    return SymNum._mk(z3.simplify(z3.If(c.e, ea, eb)))


# --------------------------------------------------------------- functions of one value


def _cached(name, e, make):
    e = z3.simplify(e)
    key = (name, e.get_id())
    c = CTX.fcache.get(key)
    if c is None:
        c = make(e)
        CTX.fcache[key] = c
        CTX.keep.append(e)
    return c


def sqrt(x):
    if not isinstance(x, SymNum):
        return np.sqrt(x)
    e = _real(x.e)
    v = const_value(z3.simplify(e))
    if v is not None:
        return np.sqrt(np.float64(float(v)))
    k = _nearly_constant(e)
    if k is not None:
        return np.float64(math.sqrt(k))
    if not_(x >= 0):
        return NAN
    b = _square_root(e)
    if b is not None:
        return abs(b) if isinstance(b, SymNum) else np.float64(abs(b))

    def make(e):
        r = CTX.new_real("sqrt")
        CTX.add(z3.And(r >= 0, r * r == e))
        CTX.squares[r.decl().name()] = e
        return SymReal(r)

    return _cached("sqrt", e, make)


def _nearly_constant(e):
    """A positive number from which the term differs by rounding of constants only (1e-12)."""
    if not _nonlinear(e):
        return None
    try:
        r = _rat(e, _rules())
    except (ValueError, OverflowError, RecursionError):
        return None
    c = r.n.t.get((), 0)
    if r.d is not None or c <= 0:
        return None
    total = Fraction(0)
    for m, k in r.n.t.items():
        if m:
            b = abs(k)
            for v, p in m:
                if v not in CTX.bounds:
                    return None
                b *= CTX.bounds[v] ** p
            total += b
            if total > c * Fraction(1, 10**12):
                return None
    return float(c)


def _square_root(e):
    """b with b*b == e where the normal form of e is the square of a monomial."""
    try:
        r = _rat(e, _rules())
    except (ValueError, OverflowError, RecursionError):
        return None

    def root(p):
        if len(p.t) != 1:
            return None
        (m, c), = p.t.items()
        if c < 0 or any(k % 2 for _, k in m):
            return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a != c.numerator or b * b != c.denominator:
            return None
        return _Poly({tuple((n, k // 2) for n, k in m): Fraction(a, b)})

    n = root(r.n) if r.n.t else None
    d = root(r.d) if r.d is not None else _Poly.const(1)
    if n is None or d is None:
        return None
    t = _term(n) if d.is_const() and d.value() == 1 else _term(n) / _term(d)
    return wrap(z3.simplify(t))


def _linear_angle(e):
    """Write e (radians) as sum(k_i * angle_i) + const over registered angles.

    Returns (dict angle name -> integer multiple of one radian-angle, const) or None.
    """
    e = z3.simplify(e, som=True)
    terms = e.children() if z3.is_add(e) else [e]
    out, const = {}, Fraction(0)
    for t in terms:
        v = const_value(t)
        if v is not None:
            const += Fraction(v)
            continue
        k, u = Fraction(1), t
        if z3.is_mul(t) and len(t.children()) == 2 and const_value(t.arg(0)) is not None:
            k, u = Fraction(const_value(t.arg(0))), t.arg(1)
        name = u.decl().name() if z3.is_const(u) else None
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_TO_REAL:
            turns = float(k) / (2 * math.pi)
            if abs(turns - round(turns)) < 1e-12:
                continue  # whole turns
        if name not in CTX.angles:
            return None
        scale = CTX.angles[name][2]  # radians = scale * variable
        m = float(k) / scale
        if name.startswith("acos") and abs(m - round(m)) > 1e-12 and abs(3 * m - round(3 * m)) < 1e-12:
            name, m = _third(name), 3 * m
        if abs(m - round(m)) > 1e-12 or round(m) == 0:
            return None
        out[name] = out.get(name, 0) + int(round(m))
    return out, float(const)


def _cs(x):
    """(cos, sin) of a symbolic angle in radians."""
    e = _real(x.e)
    v = const_value(z3.simplify(e))
    if v is not None:
        return np.cos(float(v)), np.sin(float(v))

    def make(e):
        la = _linear_angle(e)
        if la is None:
            c, s = CTX.new_real("cos"), CTX.new_real("sin")
            CTX.add(c * c + s * s == 1)
            CTX.squares[s.decl().name()] = 1 - c * c
            CTX.incomplete.append("trigonometric function of an unregistered angle")
            return SymReal(c), SymReal(s)
        names, const = la
        c, s = None, None
        if const:
            c, s = _const_cs(const)
        for n, m in sorted(names.items()):
            ca, sa = CTX.angles[n][:2]
            if m < 0:
                sa = -sa
            for _ in range(abs(m)):
                if c is None:
                    c, s = ca, sa
                else:
                    c, s = c * ca - s * sa, s * ca + c * sa
        return c, s

    return _cached("cs", e, make)


def cos(x):
    if not isinstance(x, SymNum):
        return np.cos(x)
    return _cs(x)[0]


def sin(x):
    if not isinstance(x, SymNum):
        return np.sin(x)
    return _cs(x)[1]


def _sqrt_int(n):
    """The algebraic number sqrt(n)."""
    name = "root%d" % n
    v = z3.Real(name)
    if name not in CTX.squares:
        CTX.squares[name] = z3.RealVal(n)
        CTX.add(z3.And(v > 0, v * v == n))
    return SymReal(v)


def _const_cs(const):
    """Exact cosine and sine of a multiple of 30 or 45 degrees, else floats."""
    q = const / (math.pi / 12)
    if abs(q - round(q)) > 1e-9:
        return math.cos(const), math.sin(const)
    k = int(round(q)) % 24

    def co(k):
        k %= 24
        if k > 12:
            k = 24 - k
        if k > 6:
            r = co(12 - k)
            return -r
        if k in (0, 6):
            return {0: 1, 6: 0}[k]
        if k == 2:
            return _sqrt_int(3) / 2
        if k == 4:
            return Fraction(1, 2)
        if k == 3:
            return _sqrt_int(2) / 2
        return math.cos(k * math.pi / 12)

    f = lambda v: v if isinstance(v, SymNum) or v in (0, 1, -1) else float(v)
    return f(co(k)), f(co(k - 6))


def _third(name):
    """The angle name/3 of an arccosine: 4c^3 - 3c = cos(name), c in [1/2, 1], s >= 0."""
    t = name + "/3"
    if t not in CTX.angles:
        ca = lift(CTX.angles[name][0])
        c, s = z3.Real(t + ".c"), z3.Real(t + ".s")
        CTX.add(z3.And(4 * c * c * c - 3 * c == ca, c >= z3.RealVal("1/2"), c <= 1,
                       s >= 0, s <= 1, c * c + s * s == 1))
        CTX.squares[t + ".c"] = (3, (3 * c + ca) / 4)
        CTX.squares[t + ".s"] = 1 - c * c
        register_angle(t, SymReal(c), SymReal(s), 1.0)
    return t


def register_angle(name, c, s, scale=1.0):
    CTX.angles[name] = (c, s, scale)


def arctan2(y, x):
    """A fresh angle in (-pi, pi] with matching cosine and sine."""
    if not isinstance(x, Sym) and not isinstance(y, Sym):
        return np.arctan2(y, x)
    h = sqrt(x * x + y * y)
    if or_(h == 0):
        return np.float64(0)
    c, s = x / h, y / h
    v = CTX.new_real("atan2")
    CTX.keep.append(v)
    CTX.add(z3.And(v > -z3.RealVal("3.1416"), v < z3.RealVal("3.1416")))
    cs = [lift(c), lift(s)]
    # coarse, sound facts about the quadrant
    half = z3.RealVal(str(Fraction(math.pi / 2)))
    CTX.add(z3.And(z3.Implies(cs[1] > 0, v > 0), z3.Implies(cs[1] < 0, v < 0)))
    CTX.add(z3.Implies(z3.And(cs[1] == 0, cs[0] > 0), v == 0))
    CTX.add(z3.Implies(cs[0] > 0, z3.And(v > -half, v < half)))
    register_angle(v.decl().name(), c, s, 1.0)
    return SymReal(v)


def arctan(x):
    if not isinstance(x, SymNum):
        return np.arctan(x)

    def make(e):
        v = CTX.new_real("atan")
        h = sqrt(SymReal(1 + e * e))
        half = z3.RealVal(str(Fraction(math.pi / 2)))
        CTX.add(z3.And(v > -half, v < half, z3.Implies(e > 0, v > 0),
                       z3.Implies(e < 0, v < 0), z3.Implies(e == 0, v == 0)))
        register_angle(v.decl().name(), 1 / h, SymReal(e) / h, 1.0)
        return SymReal(v)

    return _cached("arctan", _real(x.e), make)


def arccos(x):
    if not isinstance(x, SymNum):
        return np.arccos(x)
    if not_(and_(x >= -1, x <= 1)):
        return NAN

    def make(e):
        v = CTX.new_real("acos")
        pi = z3.RealVal(str(Fraction(math.pi)))
        CTX.add(z3.And(v >= 0, v <= pi))
        register_angle(v.decl().name(), SymReal(e), sqrt(SymReal(1 - e * e)), 1.0)
        return SymReal(v)

    return _cached("arccos", _real(x.e), make)


_EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())


def exp(x):
    """Uninterpreted, with positivity and exp(a)exp(b)=exp(a+b) left out (stated)."""
    if not isinstance(x, SymNum):
        return np.exp(x)

    def make(e):
        r = _EXP(e)
        CTX.add(r > 0)
        CTX.add(z3.And(z3.Implies(e <= 0, r <= 1), z3.Implies(e >= 0, r >= 1)))
        return SymReal(r)

    return _cached("exp", _real(x.e), make)


def log(x):
    raise Limit("log of a symbolic value")


def power(a, b):
    if isinstance(b, SymNum):
        v = const_value(z3.simplify(b.e))
        if v is None:
            if isinstance(b, SymInt):
                v = CTX.choose_value(b.e)
            else:
                raise Limit("symbolic exponent")
        b = v
    if not isinstance(a, SymNum):
        return a**b
    if float(b) == 0.5:
        return sqrt(a)
    if float(b) == int(b):
        n = int(b)
        if n == 0:
            return np.float64(1) if isinstance(a, SymReal) else np.int64(1)
        r = a
        for _ in range(abs(n) - 1):
            r = r * a
        return r if n > 0 else 1 / r
    if float(2 * b) == int(2 * b):
        return power(sqrt(a), int(2 * b))
    if float(b) == 1 / 3:
        if not_(a >= 0):
            return NAN

        def make(e):
            r = CTX.new_real("cbrt")
            CTX.add(z3.And(r >= 0, r * r * r == e))
            CTX.squares[r.decl().name()] = (3, e)
            return SymReal(r)

        return _cached("cbrt", _real(a.e), make)
    raise Limit("non-integer power")


def _integer_part(e):
    """Floor of a term that is an integer combination of integers plus a constant."""
    try:
        r = _rat(e, _rules())
    except (ValueError, OverflowError, RecursionError):
        return None
    if r.d is not None or len(r.n.t) > 40:
        return None
    names = CTX._ratnames
    const = Fraction(0)
    rest = {}
    for m, c in r.n.t.items():
        if not m:
            const = c
        elif c.denominator != 1 or any(names[n].sort() != z3.IntSort() for n, _ in m):
            return None
        else:
            rest[m] = c
    rest[()] = Fraction(math.floor(const))
    return _term(_Poly({m: c for m, c in rest.items() if c}))


def floor(x):
    if isinstance(x, SymReal) and _nonlinear(x.e):
        t = _integer_part(x.e)
        if t is not None:
            return wrap(z3.simplify(t))
    if isinstance(x, SymReal):
        return SymReal(z3.simplify(z3.ToReal(z3.ToInt(x.e))))
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.e))
    return np.floor(x)


def ceil(x):
    if isinstance(x, SymReal):
        return SymReal(z3.simplify(-z3.ToReal(z3.ToInt(-x.e))))
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.e))
    return np.ceil(x)


def trunc(x):
    if isinstance(x, SymNum):
        return SymReal(z3.simplify(z3.ToReal(trunc_int(x.e))))
    return np.trunc(x)


def rint(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        k = z3.ToInt(x.e)
        d = x.e - z3.ToReal(k)
        h = z3.RealVal("1/2")
        r = z3.If(d < h, k, z3.If(d > h, k + 1, z3.If(k % 2 == 0, k, k + 1)))
        return SymReal(z3.simplify(z3.ToReal(r)))
    return np.rint(x)


def sign(x):
    if isinstance(x, SymReal) and _nonlinear(x.e):
        return np.float64(1) if x > 0 else np.float64(-1) if x < 0 else np.float64(0)
    if isinstance(x, SymNum):
        one = z3.IntVal(1) if isinstance(x, SymInt) else z3.RealVal(1)
        return SymNum._mk(z3.simplify(z3.If(x.e > 0, one, z3.If(x.e < 0, -one, one - one))))
    return np.sign(x)


def maximum(a, b):
    if _isnan(a) or _isnan(b):
        return NAN
    return ite(a >= b, a, b)


def minimum(a, b):
    if _isnan(a) or _isnan(b):
        return NAN
    return ite(a <= b, a, b)


def fmax(a, b):
    return b if _isnan(a) else (a if _isnan(b) else maximum(a, b))


def fmin(a, b):
    return b if _isnan(a) else (a if _isnan(b) else minimum(a, b))


def isnan(x):
    if isinstance(x, Sym):
        return False
    return bool(np.isnan(x))


def isfinite(x):
    if isinstance(x, Sym):
        return True
    return bool(np.isfinite(x))


def isinf(x):
    if isinstance(x, Sym):
        return False
    return bool(np.isinf(x))


# --------------------------------------------------------------- algebraic normal form


class _Poly:
    """Sparse multivariate polynomial over Q (monomial = sorted ((var, power), ...))."""

    __slots__ = ("t",)
    LIMIT = 4000

    def __init__(self, t):
        self.t = t

    @staticmethod
    def const(v):
        return _Poly({(): Fraction(v)} if v else {})

    @staticmethod
    def var(n):
        return _Poly({((n, 1),): Fraction(1)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def value(self):
        return self.t.get((), Fraction(0))

    def scale(self, k):
        return _Poly({m: c * k for m, c in self.t.items()} if k else {})

    def add(self, o, k=1):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + k * c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return _Poly(t)

    def mul(self, o):
        if len(self.t) * len(o.t) > _Poly.LIMIT * 60:
            raise OverflowError
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    d = dict(m1)
                    for n, p in m2:
                        d[n] = d.get(n, 0) + p
                    m = tuple(sorted(d.items()))
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        if len(t) > _Poly.LIMIT:
            raise OverflowError
        return _Poly(t)

    def reduce(self, rules):
        """Replace n**k by rules[n] = (k, numerator, denominator or None).

        Returns (polynomial, denominator or None)."""
        if not rules:
            return self, None
        p, den = self, None
        while True:
            hit = None
            for m in p.t:
                for n, k in m:
                    if n in rules and k >= rules[n][0]:
                        hit = n
                        break
                if hit:
                    break
            if not hit:
                return p, den
            deg, rhs, rden = rules[hit]
            groups = {}
            for m, c in p.t.items():
                d = dict(m)
                q, r = divmod(d.get(hit, 0), deg)
                if r:
                    d[hit] = r
                else:
                    d.pop(hit, None)
                g = groups.setdefault(q, {})
                m2 = tuple(sorted(d.items()))
                v = g.get(m2, 0) + c
                if v:
                    g[m2] = v
                else:
                    g.pop(m2, None)
            top = max(groups)
            out = _Poly({})
            for q, g in groups.items():
                f = _Poly(g)
                for _ in range(q):
                    f = f.mul(rhs)
                if rden is not None:
                    for _ in range(top - q):
                        f = f.mul(rden)
                out = out.add(f)
            if rden is not None:
                for _ in range(top):
                    den = rden if den is None else den.mul(rden)
            p = out

    def content(self):
        """Largest monomial dividing every term."""
        it = iter(self.t)
        d = dict(next(it, ()))
        for m in it:
            if not d:
                break
            e = dict(m)
            d = {n: min(p, e[n]) for n, p in d.items() if n in e}
        return d

    def over(self, d):
        """Divide every term by a monomial (dict)."""
        if not d:
            return self
        t = {}
        for m, c in self.t.items():
            e = dict(m)
            for n, p in d.items():
                e[n] -= p
                if not e[n]:
                    del e[n]
            t[tuple(sorted(e.items()))] = c
        return _Poly(t)

    def divide(self, o):
        """Exact quotient self / o, or None."""
        if not o.t:
            return None
        vs = sorted({n for m in list(self.t) + list(o.t) for n, _ in m})
        idx = {n: i for i, n in enumerate(vs)}

        def key(m):
            k = [0] * len(vs)
            for n, p in m:
                k[idx[n]] = p
            return tuple(k)

        lead = max(o.t, key=key)
        lc = o.t[lead]
        ld = dict(lead)
        rest = self
        q = {}
        for _ in range(2000):
            if not rest.t:
                return _Poly(q)
            m = max(rest.t, key=key)
            e = dict(m)
            for n, p in ld.items():
                if e.get(n, 0) < p:
                    return None
                e[n] -= p
                if not e[n]:
                    del e[n]
            qm = tuple(sorted(e.items()))
            qc = rest.t[m] / lc
            q[qm] = q.get(qm, 0) + qc
            rest = rest.add(_Poly({qm: qc}).mul(o), -1)
        return None


class _Rat:
    """n / d with polynomials; d is None for 1. Denominators are nonzero on the path."""

    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d


def _norm(n, d, rules):
    n, e = n.reduce(rules)
    if d is not None:
        d, f = d.reduce(rules)
        if f is not None:
            n = n.mul(f)
    if e is not None:
        d = e if d is None else d.mul(e)
    if e is not None or (d is not None and f is not None):
        if n.t:
            return _norm(n, d, rules)
    if d is None:
        return _Rat(n)
    if not n.t:
        return _Rat(n)
    if d.is_const():
        v = d.value()
        if not v:
            raise ValueError("zero denominator")
        return _Rat(n.scale(1 / v))
    g1, g2 = n.content(), d.content()
    g = {k: min(p, g2[k]) for k, p in g1.items() if k in g2}
    if g:
        n, d = n.over(g), d.over(g)
        if d.is_const():
            return _Rat(n.scale(1 / d.value()))
    if len(d.t) <= 60 and len(n.t) <= 400:
        q = n.divide(d)
        if q is not None:
            return _Rat(q)
    lc = d.t[min(d.t)]
    if lc != 1:
        n, d = n.scale(1 / lc), d.scale(1 / lc)
    return _Rat(n, d)


_RATOPS = None


def _rules():
    """Powers of algebraic variables, as polynomials: name -> (degree, polynomial).

    c.squares maps a name to a term (its square) or to (degree, term).
    """
    c = CTX
    if len(c.squares) != c.__dict__.get("_nrules", 0):
        rules = c.__dict__.setdefault("_rules", {})
        c._nrules = len(c.squares)
        for n, sq in list(c.squares.items()):
            if n not in rules:
                try:
                    deg, sq = sq if isinstance(sq, tuple) else (2, sq)
                    r = _rat(sq, rules)
                    rules[n] = (deg, r.n, r.d)
                except (ValueError, OverflowError, RecursionError):
                    pass
    return c.__dict__.get("_rules", {})


def _rat(e, rules):
    """z3 arithmetic term -> reduced rational function (raises if it is not one)."""
    memo = CTX.__dict__.setdefault("_ratmemo", {})
    k = e.get_id()
    r = memo.get(k)
    if r is not None:
        if isinstance(r, Exception):
            raise r
        return r
    CTX.keep.append(e)
    try:
        r = _rat1(e, rules)
    except (ValueError, OverflowError) as x:
        memo[k] = x
        raise
    memo[k] = r
    return r


def _rat1(e, rules):
    names = CTX.__dict__.setdefault("_ratnames", {})
    v = const_value(e) if _isval(e) else None
    if v is not None:
        return _Rat(_Poly.const(Fraction(v)))
    if not z3.is_app(e):
        raise ValueError
    kind = e.decl().kind()
    if kind == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name() if e.num_args() == 0 else "app#%d" % e.get_id()
        names[n] = e
        return _Rat(_Poly.var(n))
    if kind == z3.Z3_OP_TO_REAL:
        return _rat(e.arg(0), rules)
    if kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        ch = [_rat(c, rules) for c in e.children()]
        r = ch[0]
        s = -1 if kind == z3.Z3_OP_SUB else 1
        for c in ch[1:]:
            if r.d is None and c.d is None:
                r = _Rat(r.n.add(c.n, s))
            elif r.d is not None and c.d is not None and r.d.t == c.d.t:
                r = _norm(r.n.add(c.n, s), r.d, rules)
            else:
                n1 = r.n if c.d is None else r.n.mul(c.d)
                n2 = c.n if r.d is None else c.n.mul(r.d)
                d = c.d if r.d is None else (r.d if c.d is None else r.d.mul(c.d))
                r = _norm(n1.add(n2, s), d, rules)
        return r
    if kind == z3.Z3_OP_MUL:
        ch = [_rat(c, rules) for c in e.children()]
        r = ch[0]
        for c in ch[1:]:
            d = c.d if r.d is None else (r.d if c.d is None else r.d.mul(c.d))
            r = _norm(r.n.mul(c.n), d, rules)
        return r
    if kind == z3.Z3_OP_UMINUS:
        c = _rat(e.arg(0), rules)
        return _Rat(c.n.scale(-1), c.d)
    if kind == z3.Z3_OP_DIV:
        a, b = _rat(e.arg(0), rules), _rat(e.arg(1), rules)
        if not b.n.t:
            raise ValueError("zero denominator")
        n = a.n if b.d is None else a.n.mul(b.d)
        d = b.n if a.d is None else b.n.mul(a.d)
        return _norm(n, d, rules)
    if kind == z3.Z3_OP_POWER:
        a = _rat(e.arg(0), rules)
        p = const_value(e.arg(1))
        if p is None or p != int(p) or p < 0 or p > 12:
            raise ValueError
        r = _Rat(_Poly.const(1))
        for _ in range(int(p)):
            r = _norm(r.n.mul(a.n), a.d if r.d is None else (r.d if a.d is None else r.d.mul(a.d)), rules)
        return r
    # if-then-else, integer parts: opaque
    n = "op#%d" % e.get_id()
    names[n] = e
    return _Rat(_Poly.var(n))


def _term(p):
    """Polynomial -> z3 real term."""
    names = CTX._ratnames
    out = []
    for m, c in sorted(p.t.items(), key=str):
        f = []
        for n, k in m:
            e = _real(names[n])
            f.extend([e] * k)
        if not f:
            out.append(z3.RealVal(str(c)))
        elif c == 1 and len(f) == 1:
            out.append(f[0])
        else:
            out.append(z3.Product(*( [z3.RealVal(str(c))] + f if c != 1 else f)))
    if not out:
        return z3.RealVal(0)
    return out[0] if len(out) == 1 else z3.Sum(*out)


def _nonlinear(e, depth=0):
    """Does the term hold a product of variables or a division by one?"""
    memo = CTX.__dict__.setdefault("_nlmemo", {})
    k = e.get_id()
    if k in memo:
        return memo[k]
    CTX.keep.append(e)
    kind = e.decl().kind() if z3.is_app(e) else None
    r = False
    if kind == z3.Z3_OP_MUL:
        nv = [c for c in e.children() if not _isval(c)]
        r = len(nv) > 1
    elif kind == z3.Z3_OP_DIV:
        r = not _isval(e.arg(1))
    elif kind == z3.Z3_OP_POWER:
        r = True
    if not r:
        r = any(_nonlinear(c, depth + 1) for c in e.children())
    memo[k] = r
    return r


def normal_difference(a, b):
    """a - b as (numerator, denominator or None) polynomials, or None."""
    try:
        d = a - b
        if not _nonlinear(d):
            return None
        r = _rat(d, _rules())
        return r.n, r.d
    except (ValueError, OverflowError, RecursionError):
        return None


def compare_terms(a, b, op):
    """Atom `a op b`, with nonlinear real sides brought to normal form first."""
    if a.sort() == z3.RealSort():
        nd = normal_difference(a, b)
        if nd is not None and len(nd[0].t) + (len(nd[1].t) if nd[1] else 0) < 400:
            n, d = nd
            if n.is_const() and d is None:
                v = n.value()
                return z3.BoolVal({"lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0,
                                   "eq": v == 0, "ne": v != 0}[op])
            if d is not None and op not in ("eq", "ne"):
                try:
                    n, e = n.mul(d).reduce(_rules())  # sign of n/d is the sign of n*d
                    while e is not None:
                        n, e = n.mul(e).reduce(_rules())
                except OverflowError:
                    n = None
            if n is not None:
                a, b = _term(n), z3.RealVal(0)
    return {
        "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b,
        "ge": lambda: a >= b, "eq": lambda: a == b, "ne": lambda: a != b,
    }[op]()


def identically_zero(e):
    """Is the term zero as a rational function modulo the known squares?"""
    try:
        return not _rat(e, _rules()).n.t
    except (ValueError, OverflowError, RecursionError):
        return False


def nonlinear(e, limit=20000):
    """Whether an expression multiplies (or divides by) unknowns."""
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if len(seen) > limit:
            return True
        if not z3.is_app(x):
            continue
        k, ch = x.decl().kind(), x.children()
        if k == z3.Z3_OP_MUL and sum(not _numeral(c) for c in ch) > 1 or k in (z3.Z3_OP_POWER,) or k == z3.Z3_OP_DIV and not _numeral(ch[1]):
            return True
        todo += ch
    return False


def branching(e):
    """Whether an expression contains floors or choices."""
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen or not z3.is_app(x):
            continue
        seen.add(i)
        if x.decl().kind() in (z3.Z3_OP_TO_INT, z3.Z3_OP_ITE):
            return True
        todo += x.children()
    return False


def _numeral(x):
    return z3.is_rational_value(x) or z3.is_int_value(x)


def resolve(ctx, es, limit=40):
    """Replace floors and choices that the path decides by their value."""
    es = list(es)
    known = ctx.__dict__.setdefault("resolved", {})
    skip = set()
    for _ in range(limit):
        subst = []
        seen = set()

        def visit(x):
            # innermost first; returns whether undecided terms lie within
            i = x.get_id()
            if i in seen:
                return i in skip or False
            seen.add(i)
            if not z3.is_app(x):
                return False
            ch = x.children()
            k = x.decl().kind()
            open_ = False
            for c in ch:
                open_ = visit(c) or open_
            if subst:
                return True
            if k == z3.Z3_OP_TO_INT or k == z3.Z3_OP_ITE:
                if i in skip:
                    return True
                v = known.get(i)
                if v is None:
                    v = _decided(ctx, x, k)
                    if v is not None:
                        known[i] = (v, x)
                else:
                    v = v[0]
                if v is None:
                    skip.add(i)
                    return True
                subst.append((x, v))
                return True
            return open_

        for e in es:
            visit(e)
            if subst:
                break
        if not subst:
            break
        es = [z3.simplify(z3.substitute(e, *subst)) for e in es]
    return es


def _decided(ctx, x, k):
    if k == z3.Z3_OP_ITE:
        c, a, b = x.children()
        if ctx._check(z3.Not(c), timeout=500) == z3.unsat:
            return a
        if ctx._check(c, timeout=500) == z3.unsat:
            return b
        return None
    m = ctx.model
    if m is None:
        return None
    v = m.eval(x, model_completion=True)
    if not z3.is_int_value(v):
        return None
    if ctx._check(x != v, timeout=500) == z3.unsat:
        return v
    return None


def _without_small(n, tol):
    """Drop terms which together stay below a part of tol, by the bounds of the inputs.

    Returns (polynomial or None if it stays within tol, most that the dropped terms add)."""
    bounds = CTX.bounds
    small, total = [], Fraction(0)
    for m, c in n.t.items():
        b = abs(c)
        for v, k in m:
            if v not in bounds:
                break
            b *= bounds[v] ** k
        else:
            small.append((b, m))
    small.sort(key=lambda x: x[0])
    drop = set()
    for b, m in small:
        if total + b > (tol if len(small) == len(n.t) and sum(x[0] for x in small) <= tol else tol / 4):
            break
        total += b
        drop.add(m)
    if not drop:
        return n, 0
    if len(drop) == len(n.t):
        return None, 0
    return _Poly({m: c for m, c in n.t.items() if m not in drop}), total


def exceeds(p, q, tol):
    """Atom |p - q| > tol, normalised."""
    t = z3.RealVal(str(Fraction(tol)))
    nd = normal_difference(p, q)
    if nd is not None and len(nd[0].t) + (len(nd[1].t) if nd[1] else 0) < 400:
        n, d = nd
        if not n.t:
            return z3.BoolVal(False)
        if d is None:
            n, spare = _without_small(n, Fraction(tol))
            if n is None:
                return z3.BoolVal(False)
            if spare:
                t = z3.RealVal(str(Fraction(tol) - spare))
            e = _term(n)
            return z3.Or(e > t, e < -t)
        e, f = _term(n), _term(d)
        # |n/d| > t  <=>  n^2 > t^2 d^2 ; written with signs to keep degrees low
        return z3.Or(z3.And(f > 0, z3.Or(e > t * f, e < -t * f)),
                     z3.And(f < 0, z3.Or(e < t * f, e > -t * f)))
    d = p - q
    return z3.Or(d > t, d < -t)
