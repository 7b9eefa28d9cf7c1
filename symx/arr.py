"""Arrays of symbolic values and the stand-in for the module name ``np``.

`TArr` is a numpy object array with a *logical* dtype. Shape handling, views,
aliasing, broadcasting and fancy indexing are numpy's own; only element arithmetic
and value-dependent functions are ours. A function whose arguments hold no symbolic
element is passed to the real numpy.
"""
import copy as copymod
import itertools
import operator

import numpy as np
import z3

from . import core
from .core import Limit, Sym, SymBool, SymInt, SymNum, SymReal, and_, ite, not_, or_

F8 = np.dtype("float64")
I8 = np.dtype("int64")
B1 = np.dtype(bool)
OBJ = np.dtype(object)


# ------------------------------------------------------------------ element <-> dtype


def elem_dtype(v):
    if isinstance(v, SymReal):
        return F8
    if isinstance(v, SymInt):
        return I8
    if isinstance(v, SymBool):
        return B1
    if isinstance(v, np.generic):
        return v.dtype
    if isinstance(v, bool):
        return B1
    if isinstance(v, int):
        return I8
    if isinstance(v, float):
        return F8
    return OBJ


def cast(v, dt):
    """Convert one element to a dtype, with numpy's (unsafe) casting rules."""
    k = dt.kind
    if k == "O":
        return v
    if isinstance(v, Sym):
        if k == "f":
            if isinstance(v, SymReal):
                return v
            if isinstance(v, SymBool):
                v = v.num()
            return SymReal(z3.ToReal(v.e))
        if k in "iu":
            if isinstance(v, SymBool):
                return v.num()
            if isinstance(v, SymReal):
                v = SymInt(core.trunc_int(v.e))
            if dt.itemsize < 8 or k == "u":
                info = np.iinfo(dt)
                if not_(and_(v >= int(info.min), v <= int(info.max))):
                    raise Limit("integer wrap-around")
            return v
        if k == "b":
            if isinstance(v, SymBool):
                return v
            return v != 0
        raise Limit("cast of a symbolic value to %s" % dt)
    if k in "iu" and isinstance(v, (float, np.floating)) and not np.isfinite(v):
        return np.array([v]).astype(dt)[0]
    try:
        return np.asarray(v).astype(dt)[()] if not isinstance(v, dt.type) else v
    except (TypeError, ValueError):
        raise


core._DISPATCH["cast"] = cast


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, core.Dtd):
        return True
    if isinstance(x, TFlat):
        x = x.base
    if isinstance(x, np.ndarray):
        if type(x) is TArr or np.ndarray.dtype.__get__(x) == OBJ:
            return any(isinstance(v, (Sym, core.Dtd)) for v in raw(x).flat)
        return False
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v) for v in x.values())
    return False


def raw(x):
    """The underlying object array (shares memory)."""
    return x.view(np.ndarray)


def mk(a, ld=None):
    """Object ndarray -> TArr with logical dtype (shares memory)."""
    t = a.view(TArr)
    if ld is None:
        dts = {elem_dtype(v) for v in a.flat}
        if not dts:
            ld = F8
        elif OBJ in dts:
            ld = OBJ
        else:
            ld = np.result_type(*dts)
        if ld != OBJ and len(dts) > 1:
            flat = a.reshape(-1)
            if np.shares_memory(flat, a) or a.size == 0:
                for i in range(flat.size):
                    flat[i] = cast(flat[i], ld)
    t._ld = np.dtype(ld)
    return t


def tarr(x, dtype=None):
    """Anything array-like -> new TArr."""
    if isinstance(x, TFlat):
        x = x.array()
    if isinstance(x, TArr):
        r = mk(raw(x).copy(), x._ld)
        return r if dtype is None else r.astype(dtype)
    if isinstance(x, np.ndarray):
        o = np.empty(x.shape, dtype=object)
        of = o.reshape(-1)
        for i, v in enumerate(x.reshape(-1)):
            of[i] = v
        r = mk(o, x.dtype)
        return r if dtype is None else r.astype(dtype)
    if isinstance(x, (Sym, core.Dtd)) or not isinstance(x, (list, tuple)):
        if isinstance(x, (Sym, core.Dtd)):
            o = np.empty((), dtype=object)
            o[()] = x
            r = mk(o, elem_dtype(x))
            return r if dtype is None else r.astype(dtype)
        return tarr(np.array(x, dtype=dtype))
    # lists
    if not has_sym(x):
        x2 = native(x)
        return tarr(np.array(x2, dtype=dtype))
    items = [tarr(v) for v in x]
    shapes = {i.shape for i in items}
    if len(shapes) != 1:
        raise ValueError(
            "setting an array element with a sequence. The requested array has an "
            "inhomogeneous shape"
        )
    shape = shapes.pop()
    o = np.empty((len(items),) + shape, dtype=object)
    for i, v in enumerate(items):
        o[i] = raw(v) if v.shape else raw(v)[()]
    lds = [i._ld for i in items]
    ld = OBJ if OBJ in lds else np.result_type(*lds)
    r = mk(o, ld)
    if ld != OBJ:
        _castall(r, ld)
    return r if dtype is None else r.astype(dtype)


def _castall(a, ld):
    r = raw(a)
    for i in np.ndindex(r.shape):
        r[i] = cast(r[i], ld)


def native(x):
    """TArr without symbolic elements -> plain numpy (deeply)."""
    if isinstance(x, TFlat):
        x = x.array()
    if isinstance(x, TArr):
        if x._ld == OBJ:
            return raw(x).copy()
        if x._ld.kind not in "fiubO":
            return np.array(x.tolist(), dtype=x._ld).reshape(x.shape)
        return raw(x).astype(x._ld)
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(native(v) for v in x)
    if isinstance(x, dict):
        return {k: native(v) for k, v in x.items()}
    return x


def rewrap(x):
    if type(x) is np.ndarray:
        return tarr(x)
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(rewrap(v) for v in x)
    return x


def concretise(x, why):
    """Pin every symbolic element (the path becomes incomplete)."""
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymInt):
        return int(core.CTX.concretize(x.e, why))
    if isinstance(x, SymReal):
        return float(core.CTX.concretize(x.e, why))
    if isinstance(x, TArr):
        o = raw(x).copy()
        for i in np.ndindex(o.shape):
            o[i] = concretise(o[i], why)
        return native(mk(o, x._ld))
    if isinstance(x, (list, tuple)):
        return type(x)(concretise(v, why) for v in x)
    if isinstance(x, dict):
        return {k: concretise(v, why) for k, v in x.items()}
    return x


# ------------------------------------------------------------------ ufuncs


def _lt(f):
    def g(a, b):
        r = f(a, b)
        return r

    return g


def _l_and(a, b):
    return and_(a, b)


def _l_or(a, b):
    return or_(a, b)


def _b_and(a, b):
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return and_(a, b)
    return a & b


def _b_or(a, b):
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return or_(a, b)
    return a | b


def _inv(a):
    if isinstance(a, (bool, np.bool_, SymBool)):
        return not_(a)
    return ~a


def _div(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with np.errstate(all="ignore"):
            return np.true_divide(a, b) if not isinstance(a, core.Dtd) else a / b
    return a / b


def _hypot(a, b):
    return core.sqrt(a * a + b * b)


def _native_elem(uf):
    def f(*a):
        if any(isinstance(v, Sym) for v in a):
            raise Limit("ufunc %s of a symbolic value" % uf.__name__)
        with np.errstate(all="ignore"):
            return uf(*a)

    return f


def _nz(f, uf):
    """Use numpy for concrete numbers (warnings off), f otherwise."""

    def g(*a):
        for v in a:
            if isinstance(v, (Sym, core.Dtd)) or not isinstance(
                v, (bool, int, float, np.generic)
            ):
                # Python scalars, so that the symbolic operand's operator decides
                return f(*[v.item() if isinstance(v, np.generic) else v for v in a])
        with np.errstate(all="ignore"):
            return uf(*a)

    return g


_K = core
UF = {
    "add": operator.add,
    "subtract": operator.sub,
    "multiply": operator.mul,
    "true_divide": _div,
    "divide": _div,
    "floor_divide": operator.floordiv,
    "remainder": operator.mod,
    "power": core.power,
    "float_power": core.power,
    "negative": operator.neg,
    "positive": operator.pos,
    "absolute": abs,
    "fabs": abs,
    "sign": core.sign,
    "sqrt": core.sqrt,
    "square": lambda a: a * a,
    "exp": core.exp,
    "log": core.log,
    "sin": core.sin,
    "cos": core.cos,
    "arctan": core.arctan,
    "arctan2": core.arctan2,
    "arccos": core.arccos,
    "hypot": _hypot,
    "floor": core.floor,
    "ceil": core.ceil,
    "trunc": core.trunc,
    "rint": core.rint,
    "maximum": core.maximum,
    "minimum": core.minimum,
    "fmax": core.fmax,
    "fmin": core.fmin,
    "isnan": core.isnan,
    "isfinite": core.isfinite,
    "isinf": core.isinf,
    "greater": operator.gt,
    "greater_equal": operator.ge,
    "less": operator.lt,
    "less_equal": operator.le,
    "equal": operator.eq,
    "not_equal": operator.ne,
    "logical_and": _l_and,
    "logical_or": _l_or,
    "logical_not": not_,
    "logical_xor": lambda a, b: (a != 0) != (b != 0),
    "bitwise_and": _b_and,
    "bitwise_or": _b_or,
    "bitwise_xor": operator.xor,
    "invert": _inv,
    "deg2rad": lambda a: a * (np.pi / 180),
    "radians": lambda a: a * (np.pi / 180),
    "rad2deg": lambda a: a * (180 / np.pi),
    "degrees": lambda a: a * (180 / np.pi),
    "conjugate": lambda a: a,
    "reciprocal": lambda a: 1 / a,
    "left_shift": operator.lshift,
    "right_shift": operator.rshift,
}
UFUNC = {}  # ufuncs of more than one result (more.py)
BOOLRES = set(
    "isnan isfinite isinf greater greater_equal less less_equal equal not_equal "
    "logical_and logical_or logical_not logical_xor".split()
)


def _as_t(x):
    if isinstance(x, TFlat):
        return x.array()
    if isinstance(x, TArr):
        return x
    return tarr(x)


def _res_ld(name, uf, args):
    lds = [a._ld for a in args]
    if name in BOOLRES:
        return B1
    if OBJ in lds:
        return None
    try:
        # value-based casting of numpy 1.x: Python/0-d scalars are weak
        with np.errstate(all="ignore"):
            samples = [
                np.ones(1, dtype=a._ld) if a.shape else np.ones((), dtype=a._ld)[()]
                for a in args
            ]
            return np.asarray(uf(*samples)).dtype
    except TypeError:
        raise


def call_ufunc(uf, inputs, out=None, where=True):
    name = uf.__name__
    f = UF.get(name)
    args = [_as_t(a) for a in inputs]
    ld = _res_ld(name, uf, args)
    if f is None:
        f = _native_elem(uf)
    f = _nz(f, uf)
    b = np.broadcast_arrays(*[raw(a) for a in args], subok=False)
    o = np.empty(b[0].shape, dtype=object)
    its = [x.reshape(-1) if x.size else np.empty(0, object) for x in b]
    of = o.reshape(-1)
    for i in range(of.size):
        of[i] = f(*[it[i] for it in its])
    if ld is not None and ld != OBJ:
        for i in range(of.size):
            of[i] = cast(of[i], ld)
    res = mk(o, ld)
    if out is not None:
        t = out[0] if isinstance(out, tuple) else out
        if not np.can_cast(res._ld, t.dtype, "same_kind"):
            raise TypeError(
                "Cannot cast ufunc '%s' output from dtype('%s') to dtype('%s') with "
                "casting rule 'same_kind'" % (name, res._ld, t.dtype)
            )
        if where is not True:
            m = np.broadcast_to(raw(_as_t(where)), t.shape)
            v = np.broadcast_to(raw(_as_t(res)), t.shape)
            o = raw(_as_t(t))
            new = np.empty(t.shape, dtype=object)
            for i in np.ndindex(t.shape):
                new[i] = ite(m[i], cast(v[i], t.dtype if not isinstance(t, TArr) else t._ld), o[i])
            t[...] = mk(new, t._ld if isinstance(t, TArr) else t.dtype)
            return t
        t[...] = res
        return t
    if where is not True:
        raise Limit("ufunc where= without out")
    return res[()] if res.shape == () else res


def _reduce(uf, x, axis=0, keepdims=False, initial=None, dtype=None):
    name = uf.__name__
    x = _as_t(x)
    a = raw(x)
    if axis is None:
        a = a.reshape(-1)
        axes = (0,)
        nd = x.ndim
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
        axes = tuple(k % max(a.ndim, 1) for k in axes)
    if x._ld == B1 and name == "add":
        ld = I8
    elif name in ("logical_and", "logical_or"):
        ld = B1
    elif name in ("add", "multiply") and x._ld.kind in "iu" and x._ld.itemsize < 8:
        # numpy sums small integers in the integers of the platform
        ld = I8 if x._ld.kind == "i" else np.dtype(np.uint64)
    else:
        ld = x._ld
    if dtype is not None:
        ld = np.dtype(dtype)
    if a.ndim == 0:
        a = a.reshape(1)
        axes = (0,)
    moved = np.moveaxis(a, axes, range(len(axes)))
    k = int(np.prod(moved.shape[: len(axes)]))
    rest = moved.shape[len(axes):]
    m = moved.reshape((k,) + rest)
    o = np.empty(rest, dtype=object)
    for i in np.ndindex(rest):
        vals = [m[(j,) + i] for j in range(k)]
        o[i] = _fold(name, uf, vals, ld)
    if keepdims:
        shape = list(x.shape)
        for ax in axes if axis is not None else range(x.ndim):
            shape[ax] = 1
        o = o.reshape(shape)
    r = mk(o, ld if ld != OBJ else None)
    return r[()] if r.shape == () else r


def _fold(name, uf, vals, ld):
    if name == "logical_and":
        return and_(*vals) if vals else True
    if name == "logical_or":
        return or_(*vals) if vals else False
    if not vals:
        if uf.identity is None:
            raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
        return cast(uf.identity, ld)
    f = _nz(UF[name], uf)
    r = vals[0]
    if ld != OBJ:
        r = cast(r, ld)
    for v in vals[1:]:
        r = f(r, v)
    return cast(r, ld) if ld != OBJ else r


def dispatch_ufunc(uf, method, *inputs, out=None, **kw):
    if method == "__call__":
        if uf is np.matmul:
            return h_matmul(*inputs)
        if uf in UFUNC:
            return UFUNC[uf](*inputs)
        where = kw.get("where", True)
        return call_ufunc(uf, inputs, out=out, where=where)
    if method == "reduce":
        kw.pop("out", None)
        axis = inputs[1] if len(inputs) > 1 else kw.get("axis", 0)
        if any(kw.get(k, np._NoValue) not in (np._NoValue, None, True) for k in ("initial", "where") if not isinstance(kw.get(k), np.ndarray)) or isinstance(kw.get("where"), np.ndarray):
            from . import more

            return more.reduce(uf, inputs[0], axis, kw.get("keepdims", False), kw.get("dtype"), kw.get("initial", np._NoValue), kw.get("where", True))
        return _reduce(uf, inputs[0], axis=axis, keepdims=kw.get("keepdims", False), dtype=kw.get("dtype"))
    if method == "accumulate":
        x = _as_t(inputs[0])
        axis = kw.get("axis", 0)
        o = np.moveaxis(raw(x).copy(), axis, 0)
        f = _nz(UF[uf.__name__], uf)
        for i in range(1, o.shape[0]):
            for j in np.ndindex(o.shape[1:]):
                o[(i,) + j] = f(o[(i - 1,) + j], o[(i,) + j])
        return mk(np.moveaxis(o, 0, axis), I8 if x._ld == B1 else x._ld)
    if method == "outer":
        a, b = _as_t(inputs[0]), _as_t(inputs[1])
        return call_ufunc(uf, (a.reshape(a.shape + (1,) * b.ndim), b))
    if method == "at":
        a, idx = inputs[0], resolve_index(inputs[1])
        if not isinstance(a, TArr):
            raise Limit("ufunc.at of an array that is not symbolic")
        o = raw(a)
        pos = np.arange(a.size).reshape(a.shape)[idx]
        f = _nz(UF.get(uf.__name__) or _native_elem(uf), uf)
        args = [np.broadcast_to(raw(_as_t(v)), np.shape(pos)).reshape(-1) for v in inputs[2:]]
        for k, q in enumerate(np.reshape(pos, -1)):
            at = np.unravel_index(int(q), o.shape)
            o[at] = cast(f(o[at], *[v[k] for v in args]), a._ld)
        return None
    raise Limit("ufunc method " + method)


# ------------------------------------------------------------------ the array class


def resolve_index(idx):
    """Make an index concrete (forks on symbolic positions and masks)."""
    if isinstance(idx, TFlat):
        idx = idx.array()
    if isinstance(idx, tuple):
        return tuple(resolve_index(i) for i in idx)
    if isinstance(idx, TArr):
        if idx._ld == B1:
            return np.array([bool(v) for v in raw(idx).flat], dtype=bool).reshape(idx.shape)
        if idx._ld.kind in "iu":
            return np.array([int(v) for v in raw(idx).flat], dtype=idx._ld).reshape(idx.shape)
        if idx._ld == OBJ and idx.size and all(
            isinstance(v, (bool, np.bool_, SymBool)) for v in raw(idx).flat
        ):
            return np.array([bool(v) for v in raw(idx).flat], dtype=bool).reshape(idx.shape)
        if idx._ld == OBJ and idx.size and all(
            isinstance(v, (int, np.integer, SymInt)) for v in raw(idx).flat
        ):
            return np.array([int(v) for v in raw(idx).flat], dtype=int).reshape(idx.shape)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, SymInt):
        return int(idx)
    if isinstance(idx, SymReal):
        raise IndexError(
            "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and "
            "integer or boolean arrays are valid indices"
        )
    if isinstance(idx, slice):
        g = lambda v: v if v is None else operator.index(v)
        return slice(g(idx.start), g(idx.stop), g(idx.step))
    if isinstance(idx, list):
        if has_sym(idx) or any(isinstance(v, TArr) for v in idx):
            return resolve_index(tarr(idx))
        return idx
    return idx


class TArr(np.ndarray):
    """Object array with a logical dtype."""

    def __array_finalize__(self, obj):
        self._ld = getattr(obj, "_ld", OBJ)

    @property
    def dtype(self):
        return self._ld

    @dtype.setter
    def dtype(self, v):
        raise Limit("assignment to dtype")

    @property
    def flat(self):
        return TFlat(self)

    @flat.setter
    def flat(self, v):
        TFlat(self)[:] = v

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return dispatch_ufunc(uf, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch_function(func, args, kwargs)

    def __array_wrap__(self, a, context=None):
        return a

    # -- indexing
    def __getitem__(self, idx):
        idx = resolve_index(idx)
        r = raw(self)[idx]
        if isinstance(r, np.ndarray) and (
            r.shape != () or _keeps_array(idx)
        ):
            return mk(r, self._ld)
        return r

    def __setitem__(self, idx, val):
        # boolean mask with a scalar: no fork needed if both are finite numbers
        if (
            isinstance(idx, TArr)
            and idx._ld == B1
            and has_sym(idx)
            and not isinstance(val, (np.ndarray, list, tuple))
            and core.lift(val) is not None
            and core.lift(val) is not NotImplemented
        ):
            a = raw(self)
            m = raw(idx)
            val = cast(val, self._ld)
            for i in np.ndindex(m.shape):
                sub = a[i]
                if isinstance(sub, np.ndarray):
                    for j in np.ndindex(sub.shape):
                        sub[j] = ite(m[i], val, sub[j])
                else:
                    a[i] = ite(m[i], val, a[i])
            return
        idx = resolve_index(idx)
        a = raw(self)
        if isinstance(val, TFlat):
            val = val.array()
        if isinstance(val, (np.ndarray, list, tuple)) or (
            hasattr(val, "__array__") and not isinstance(val, (np.generic, Sym))
        ):
            v = _as_t(val)
            target = a[idx]
            if isinstance(target, np.ndarray):
                if self._ld != OBJ:
                    v = v.astype(self._ld)
                a[idx] = raw(v)
                return
            if v.size != 1:
                if self._ld == OBJ:
                    a[idx] = val
                    return
                raise ValueError("setting an array element with a sequence.")
            val = raw(v).reshape(-1)[0]
        if self._ld != OBJ:
            val = cast(val, self._ld)
        target = a[idx]
        if isinstance(target, np.ndarray):
            if target.shape == () and not isinstance(idx, tuple):
                a[idx] = val
                return
            o = np.empty((), dtype=object)
            o[()] = val
            a[idx] = o
        else:
            a[idx] = val

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, v):
        return bool(or_(*[x == v for x in raw(self).flat]))

    def __bool__(self):
        if self.size == 1:
            return bool(raw(self).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError(
            "The truth value of an array with more than one element is ambiguous. "
            "Use a.any() or a.all()"
        )

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(raw(self).reshape(-1)[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return int(raw(self).reshape(-1)[0])

    def __index__(self):
        if self.shape != () or self._ld.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(raw(self).reshape(-1)[0])

    def __repr__(self):
        return "TArr(%s, %s)" % (raw(self).tolist(), self._ld)

    __str__ = __repr__

    # -- conversion
    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = _dt(dtype)
        if not copy and dt == self._ld:
            return self
        if casting != "unsafe" and not np.can_cast(self._ld, dt, casting):
            raise TypeError("Cannot cast array data from %r to %r" % (self._ld, dt))
        o = raw(self).copy()
        if dt != OBJ:
            for i in np.ndindex(o.shape):
                o[i] = cast(o[i], dt)
        return mk(o, dt)

    def copy(self, order="C"):
        return mk(raw(self).copy(), self._ld)

    def __deepcopy__(self, memo):
        new = self.copy()
        if self._ld == OBJ:
            o, q = raw(self), raw(new)
            for i in np.ndindex(o.shape):
                q[i] = copymod.deepcopy(o[i], memo)
        return new

    __copy__ = copy

    def tolist(self):
        r = raw(self).tolist()

        def f(v):
            if isinstance(v, list):
                return [f(w) for w in v]
            if isinstance(v, np.generic):
                return v.item()
            return v

        return f(r)

    def item(self, *a):
        v = raw(self).item(*a)
        return v.item() if isinstance(v, np.generic) else v

    def view(self, *a, **k):
        return np.ndarray.view(self, *a, **k)

    def squeeze(self, axis=None):
        return mk(np.squeeze(raw(self), axis=axis), self._ld)

    # -- reductions and friends
    def _red(self, uf, axis, keepdims, dtype=None, out=None, k={}):
        if k:
            from . import more

            r = more.reduce(uf, self, axis, keepdims, dtype, **k)
        else:
            r = _reduce(uf, self, axis, keepdims, dtype=dtype)
        if out is not None:
            out[...] = r
            return out
        return r

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self._red(np.add, axis, keepdims, dtype, out, k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self._red(np.multiply, axis, keepdims, dtype, out, k)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return self._red(np.logical_or, axis, keepdims, None, out, k)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return self._red(np.logical_and, axis, keepdims, None, out, k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return self._red(np.minimum, axis, keepdims, None, out, k)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return self._red(np.maximum, axis, keepdims, None, out, k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if k.get("where", True) is not True:
            from . import more

            return more.h_mean(self, axis, dtype, keepdims=keepdims, **k)
        s = _reduce(np.add, self, axis, keepdims, dtype=np.float64 if self._ld.kind in "iub" else None)
        n = self.size if axis is None else _axlen(self, axis)
        if n == 0:
            return core.NAN if np.ndim(s) == 0 else s * core.NAN
        return s / n

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        m = self.mean(axis=axis, keepdims=True) if axis is not None else self.mean()
        d = self - m
        s = (d * d).sum(axis=axis, keepdims=keepdims)
        n = self.size if axis is None else _axlen(self, axis)
        return s / (n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        v = self.var(axis=axis, ddof=ddof, keepdims=keepdims)
        return call_ufunc(np.sqrt, (v,))

    def cumsum(self, axis=None, dtype=None, out=None):
        x = self.reshape(-1) if axis is None else self
        return dispatch_ufunc(np.add, "accumulate", x, axis=0 if axis is None else axis)

    def argmin(self, axis=None, out=None, **k):
        return h_argext(self, axis, operator.lt)

    def argmax(self, axis=None, out=None, **k):
        return h_argext(self, axis, operator.gt)

    def round(self, decimals=0, out=None):
        return h_round(self, decimals)

    def clip(self, min=None, max=None, out=None, **k):
        return h_clip(self, min, max)

    def dot(self, b, out=None):
        return h_matmul(self, b)

    def nonzero(self):
        return h_nonzero(self)

    def searchsorted(self, v, side="left", sorter=None):
        return h_searchsorted(self, v, side, sorter)

    def argsort(self, axis=-1, kind=None, order=None):
        return h_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = h_sort(self, axis)

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        x = self.reshape(-1) if axis is None else self
        return dispatch_ufunc(np.multiply, "accumulate", x, axis=0 if axis is None else axis)

    def take(self, indices, axis=None, out=None, mode="raise"):
        return h_take(self, indices, axis, out, mode)

    def compress(self, condition, axis=None, out=None):
        return FN[np.compress](condition, self, axis)

    def choose(self, choices, out=None, mode="raise"):
        return FN[np.choose](self, choices, mode=mode)

    def trace(self, *a, **k):
        return FN[np.trace](self, *a, **k)

    def put(self, *a, **k):
        return FN[np.put](self, *a, **k)

    def repeat(self, repeats, axis=None):
        return h_repeat(self, repeats, axis)

    def fill(self, value):
        self[...] = value

    def partition(self, kth, axis=-1, **k):
        self[...] = h_sort(self, axis)

    def argpartition(self, kth, axis=-1, **k):
        return h_argsort(self, axis)

    def __matmul__(self, o):
        return h_matmul(self, o)

    def __rmatmul__(self, o):
        return h_matmul(o, self)

    def tobytes(self, *a):
        raise Limit("tobytes")

    def __reduce__(self):
        raise Limit("pickling a symbolic array")


class TFlat:
    """The flat iterator of a TArr (writes go to the array)."""

    def __init__(self, a):
        self.base = a
        self._where = list(np.ndindex(a.shape))

    def __len__(self):
        return self.base.size

    def __iter__(self):
        return iter(raw(self.base).flat)

    def array(self):
        o = np.empty(self.base.size, dtype=object)
        for i, w in enumerate(self._where):
            o[i] = raw(self.base)[w]
        return mk(o, self.base._ld)

    def __getitem__(self, idx):
        return self.array()[idx]

    def __setitem__(self, idx, val):
        new = self.array()
        new[idx] = val
        a = raw(self.base)
        for i, w in enumerate(self._where):
            a[w] = raw(new)[i]

    def copy(self):
        return self.array()

    def __array__(self, dtype=None):
        return native(self.array())


def _axlen(a, axis):
    if isinstance(axis, tuple):
        n = 1
        for k in axis:
            n *= a.shape[k]
        return n
    return a.shape[axis]


def _keeps_array(idx):
    """Does this index give an array even for a 0-d result?"""
    if isinstance(idx, tuple):
        return any(i is Ellipsis for i in idx)
    return idx is Ellipsis


def _dt(d):
    if isinstance(d, np.dtype):
        return d
    return np.dtype(getattr(d, "_native", d))


# ------------------------------------------------------------------ array functions


def h_matmul(a, b, out=None):
    a, b = _as_t(a), _as_t(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if not has_sym(a) and not has_sym(b):
        return rewrap(np.matmul(native(a), native(b)))
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    if b.ndim == 1:
        if a.shape[-1] != b.shape[0]:
            raise ValueError("matmul: mismatch in core dimension")
        return (a * b).sum(axis=-1)
    if a.ndim == 1:
        if a.shape[0] != b.shape[-2]:
            raise ValueError("matmul: mismatch in core dimension")
        return (a.reshape(-1, 1) * b).sum(axis=-2)
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: mismatch in core dimension")
    x = raw(a).reshape(a.shape + (1,))
    y = raw(b).reshape(b.shape[:-2] + (1,) + b.shape[-2:])
    p = call_ufunc(np.multiply, (mk(x, a._ld), mk(y, b._ld)))
    return p.sum(axis=-2)


def h_argext(x, axis, better):
    x = _as_t(x)
    if axis is None:
        a = raw(x).reshape(-1)
        if not a.size:
            raise ValueError("attempt to get argmin/argmax of an empty sequence")
        return _argext1(list(a), better)
    a = np.moveaxis(raw(x), axis, 0)
    o = np.empty(a.shape[1:], dtype=object)
    for i in np.ndindex(a.shape[1:]):
        o[i] = _argext1([a[(j,) + i] for j in range(a.shape[0])], better)
    r = mk(o, I8)
    return r[()] if r.shape == () else r


def _argext1(vals, better):
    for j, v in enumerate(vals):  # NaN wins, as in numpy
        if core._isnan(v):
            return np.int64(j)
    if all(isinstance(v, (bool, np.bool_, SymBool)) for v in vals):
        vals = [v.num() if isinstance(v, SymBool) else int(v) for v in vals]
    best, k = vals[0], np.int64(0)
    for j, v in enumerate(vals[1:], 1):
        c = better(v, best)
        if isinstance(c, SymBool):
            k = ite(c, np.int64(j), k)
            best = ite(c, v, best)
        elif c:
            k, best = np.int64(j), v
    return k


def h_nanargext(x, axis, better):
    x = _as_t(x)
    if axis is not None:
        a = np.moveaxis(raw(x), axis, 0)
        o = np.empty(a.shape[1:], dtype=object)
        for i in np.ndindex(a.shape[1:]):
            o[i] = h_nanargext(mk(a[(slice(None),) + i].copy(), x._ld), None, better)
        return mk(o, I8)
    vals = [(j, v) for j, v in enumerate(raw(x).flat) if not core._isnan(v)]
    if not vals:
        raise ValueError("All-NaN slice encountered")
    j = _argext1([v for _, v in vals], better)
    j = int(j)
    return np.int64(vals[j][0])


def h_nanred(uf):
    def f(x, axis=None, out=None, keepdims=False, **k):
        x = _as_t(x)
        a = raw(x)
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        a = np.moveaxis(a, axis, 0)
        o = np.empty(a.shape[1:], dtype=object)
        for i in np.ndindex(a.shape[1:]):
            vals = [a[(j,) + i] for j in range(a.shape[0])]
            vals = [v for v in vals if not core._isnan(v)]
            if uf == "mean":
                o[i] = (_fold("add", np.add, vals, x._ld) / len(vals)) if vals else core.NAN
            elif uf is np.add:
                o[i] = _fold("add", uf, vals, x._ld)
            else:
                o[i] = _fold(uf.__name__, uf, vals, x._ld) if vals else core.NAN
        r = mk(o, F8 if uf == "mean" else x._ld)
        return r[()] if r.shape == () else r

    return f


def h_round(x, decimals=0, out=None):
    x = _as_t(x)
    if x._ld.kind in "iub":
        return x.copy()
    o = raw(x).copy()
    for i in np.ndindex(o.shape):
        v = o[i]
        o[i] = v.round(decimals) if isinstance(v, Sym) else np.round(v, decimals)
    r = mk(o, x._ld)
    return r[()] if r.shape == () else r


def h_clip(a, a_min=None, a_max=None, out=None, **k):
    r = _as_t(a)
    if a_min is not None:
        r = call_ufunc(np.maximum, (r, a_min))
    if a_max is not None:
        r = call_ufunc(np.minimum, (r, a_max))
    return r


def h_nonzero(x):
    x = _as_t(x)
    m = np.array([bool(v) for v in raw(x).flat], dtype=bool).reshape(x.shape)
    return tuple(tarr(i) for i in np.nonzero(m))


def h_where(cond, a=None, b=None):
    if a is None:
        return h_nonzero(cond)
    c, a, b = _as_t(cond), _as_t(a), _as_t(b)
    ld = OBJ if OBJ in (a._ld, b._ld) else np.result_type(a._ld, b._ld)
    bc = np.broadcast_arrays(raw(c), raw(a), raw(b))
    o = np.empty(bc[0].shape, dtype=object)
    for i in np.ndindex(o.shape):
        v = ite(bc[0][i] if isinstance(bc[0][i], (SymBool, bool, np.bool_)) else bool(bc[0][i]), bc[1][i], bc[2][i])
        o[i] = cast(v, ld) if ld != OBJ else v
    r = mk(o, ld)
    return r[()] if r.shape == () else r


def h_searchsorted(a, v, side="left", sorter=None):
    a = _as_t(a)
    if sorter is not None:
        a = a[sorter]
    v = _as_t(v)
    xs = list(raw(a))
    # numpy's result is defined for sorted `a` (stated assumption)
    o = np.empty(v.shape, dtype=object)
    for i in np.ndindex(v.shape):
        k = 0
        n = np.int64(0)
        for x in xs:
            c = (x < raw(v)[i]) if side == "left" else (x <= raw(v)[i])
            if isinstance(c, SymBool):
                n = n + c.num()
            elif c:
                n = n + 1
        o[i] = n
    r = mk(o, I8)
    return r[()] if r.shape == () else r


def _order(vals):
    """Stable sort order of values (forks on symbolic comparisons)."""
    import functools

    def cmp(i, j):
        a, b = vals[i], vals[j]
        an, bn = core._isnan(a), core._isnan(b)
        if an or bn:
            return (an - bn) or (i - j)
        if bool(a < b):
            return -1
        if bool(b < a):
            return 1
        return i - j

    return sorted(range(len(vals)), key=functools.cmp_to_key(cmp))


def h_argsort(x, axis=-1, kind=None, order=None):
    x = _as_t(x)
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    a = np.moveaxis(raw(x), axis, -1)
    o = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape[:-1]):
        o[i] = [np.int64(k) for k in _order(list(a[i]))]
    return mk(np.moveaxis(o, -1, axis), I8)


def h_sort(x, axis=-1, kind=None, order=None):
    x = _as_t(x)
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    a = np.moveaxis(raw(x), axis, -1)
    o = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape[:-1]):
        k = _order(list(a[i]))
        o[i] = [a[i][j] for j in k]
    return mk(np.moveaxis(o, -1, axis).copy(), x._ld)


def h_lexsort(keys, axis=-1):
    keys = [list(raw(_as_t(k))) for k in keys]
    import functools

    def cmp(i, j):
        for k in reversed(keys):
            if bool(k[i] < k[j]):
                return -1
            if bool(k[j] < k[i]):
                return 1
        return i - j

    r = sorted(range(len(keys[0])), key=functools.cmp_to_key(cmp))
    return tarr(np.array(r, dtype=int))


def h_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    x = _as_t(ar)
    if axis is not None:
        if axis != 0:
            raise Limit("unique axis")
        rows = [x[i] for i in range(x.shape[0])]
        import functools

        def cmp(i, j):
            for p, q in zip(raw(rows[i]).flat, raw(rows[j]).flat):
                if bool(p < q):
                    return -1
                if bool(q < p):
                    return 1
            return 0

        n = len(rows)
    else:
        x = x.reshape(-1)
        rows = list(raw(x))
        import functools

        def cmp(i, j):
            if bool(rows[i] < rows[j]):
                return -1
            if bool(rows[j] < rows[i]):
                return 1
            return 0

        n = len(rows)
    order = sorted(range(n), key=functools.cmp_to_key(lambda i, j: cmp(i, j) or i - j))
    firsts, inv, counts = [], [0] * n, []
    for p, i in enumerate(order):
        if p == 0 or cmp(order[p - 1], i) != 0:
            firsts.append(i)
            counts.append(0)
        inv[i] = len(firsts) - 1
        counts[-1] += 1
    out = [x[np.array(firsts, dtype=int)]]
    if return_index:
        out.append(tarr(np.array(firsts, dtype=int)))
    if return_inverse:
        out.append(tarr(np.array(inv, dtype=int)))
    if return_counts:
        out.append(tarr(np.array(counts, dtype=int)))
    return out[0] if len(out) == 1 else tuple(out)


def h_isin(element, test_elements, **k):
    if not has_sym(element) and not has_sym(test_elements):
        return np.isin(native(element), native(test_elements), **k)
    e, t = _as_t(element), list(raw(_as_t(test_elements)).flat)
    o = np.empty(e.shape, dtype=object)
    inv = k.get("invert", False)
    for i in np.ndindex(e.shape):
        r = or_(*[raw(e)[i] == v for v in t])
        o[i] = not_(r) if inv else r
    return mk(o, B1)


def h_diff(a, n=1, axis=-1, **k):
    x = _as_t(a)
    for _ in range(n):
        m = np.moveaxis(raw(x), axis, 0)
        x1 = mk(np.moveaxis(m[1:], 0, axis), x._ld)
        x0 = mk(np.moveaxis(m[:-1], 0, axis), x._ld)
        x = call_ufunc(np.not_equal if x._ld == B1 else np.subtract, (x1, x0))
        x = _as_t(x)
    return x


def h_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        if has_sym(_as_t(x)) or has_sym(_as_t(xp)):
            raise Limit("interp period")
        f = lambda v: np.asarray([float(q) for q in raw(_as_t(v)).flat])
        sh = _as_t(x).shape
        x, xp, fp = f(x) % abs(period), f(xp) % abs(period), list(raw(_as_t(fp)))
        order = np.argsort(xp)
        xp, fp = [float(v) for v in xp[order]], [fp[i] for i in order]
        xp = [xp[-1] - abs(period)] + xp + [xp[0] + abs(period)]
        fp = [fp[-1]] + fp + [fp[0]]
        left = right = None
        x = _as_t(x.reshape(sh))
    else:
        x, xp, fp = _as_t(x), list(raw(_as_t(xp))), list(raw(_as_t(fp)))
    left = fp[0] if left is None else left
    right = fp[-1] if right is None else right
    o = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        v = raw(x)[i]
        if core._isnan(v):
            o[i] = core.NAN
            continue
        if bool(v < xp[0]):
            o[i] = left
        elif bool(v > xp[-1]):
            o[i] = right
        else:
            j = len(xp) - 1
            # last j with xp[j] <= v
            while j > 0 and not bool(xp[j] <= v):
                j -= 1
            if j == len(xp) - 1 or (not has_sym([v, xp[j]]) and v == xp[j]):
                o[i] = fp[j]
            else:
                o[i] = fp[j] + (fp[j + 1] - fp[j]) / (xp[j + 1] - xp[j]) * (v - xp[j])
    r = mk(o, F8)
    return r[()] if r.shape == () else r


def h_average(a, axis=None, weights=None, returned=False, **k):
    a = _as_t(a)
    if weights is None:
        return a.mean(axis=axis)
    w = _as_t(weights)
    if w.shape != a.shape:
        if w.ndim != 1 or axis is None:
            raise TypeError("1D weights expected when shapes of a and weights differ.")
        if w.shape[0] != a.shape[axis]:
            raise ValueError("Length of weights not compatible with specified axis.")
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(sh)
    num = (a * w).sum(axis=axis)
    den = (w * call_ufunc(np.multiply, (np.ones(a.shape), 1.0))).sum(axis=axis)
    if axis is not None and w.ndim and isinstance(den, np.ndarray):
        # same weights for every column: share one denominator term
        if _as_t(weights).ndim == 1:
            den = _as_t(weights).sum()
    if bool(or_(*(_as_t(den) == 0).flat) if isinstance(den, np.ndarray) else den == 0):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    return num / den


def h_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    m = _as_t(m)
    if y is not None or fweights is not None:
        raise Limit("cov arguments")
    if not rowvar and m.shape[0] != 1:
        m = m.T
    n = m.shape[1]
    w = _as_t(aweights) if aweights is not None else tarr(np.ones(n))
    if ddof is None:
        ddof = 0 if bias else 1
    v1 = w.sum()
    avg = (m * w).sum(axis=1) / v1
    d = m - avg.reshape(-1, 1)
    v2 = (w * w).sum()
    fact = v1 - (ddof * v2 / v1 if ddof else 0)
    c = h_matmul(d * w, d.T) / fact
    return c


def h_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = operator.index(num)
    div = num - 1 if endpoint else num
    vals = []
    for i in range(num):
        if i == num - 1 and endpoint and num > 1:
            vals.append(stop * 1.0 if not isinstance(stop, Sym) else cast(stop, F8))
        elif div > 0:
            vals.append(start + (stop - start) * i / div)
        else:
            vals.append(start * 1.0 if not isinstance(start, Sym) else cast(start, F8))
    return tarr(vals, dtype=dtype) if vals else tarr(np.empty(0))


def h_arange(*a, **k):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a[:3]
    n = core.ceil((stop - start) / step)
    n = max(0, int(n))
    if n:
        return tarr([start + i * step for i in range(n)])
    return tarr(np.empty(0, dtype=int if all(isinstance(v, (int, np.integer, SymInt)) for v in (start, stop, step)) else float))


def h_full(shape, fill, dtype=None, **k):
    shape = _shape(shape)
    o = np.empty(shape, dtype=object)
    f = fill
    if isinstance(f, (np.ndarray, list, tuple)):
        r = mk(o, _dt(dtype) if dtype is not None else _as_t(f)._ld)
        r[...] = f
        return r
    if isinstance(f, (bool, int, float)):
        f = np.asarray(f)[()]
    ld = _dt(dtype) if dtype is not None else elem_dtype(f)
    if ld != OBJ:
        f = cast(f, ld)
    for i in np.ndindex(o.shape):
        o[i] = f
    return mk(o, ld)


def _shape(shape):
    if isinstance(shape, (int, np.integer, SymInt)):
        return (operator.index(shape),)
    return tuple(operator.index(s) for s in shape)


def h_insert(arr, obj, values, axis=None):
    x = _as_t(arr)
    obj = resolve_index(obj)
    pos = np.arange(x.size if axis is None else x.shape[axis])
    if axis is None:
        x = x.reshape(-1)
        axis = 0
    v = _as_t(values)
    obj = np.atleast_1d(native(obj) if isinstance(obj, TArr) else obj)
    m = np.moveaxis(raw(x), axis, 0)
    vv = np.broadcast_to(raw(v).reshape((-1,) + (1,) * (m.ndim - 1)) if v.ndim <= 1 else np.moveaxis(raw(v), axis, 0), (len(obj),) + m.shape[1:])
    out = list(m)
    order = np.argsort(obj, kind="stable")
    for s, k in enumerate(order):
        p = int(obj[k])
        if p < 0:
            p += m.shape[0]
        out.insert(p + s, vv[k])
    o = np.empty((len(out),) + m.shape[1:], dtype=object)
    for i, r in enumerate(out):
        o[i] = r
    r = mk(np.moveaxis(o, 0, axis), x._ld)
    if x._ld != OBJ:
        _castall(r, x._ld)
    return r


def h_array_equal(a, b, equal_nan=False):
    a, b = _as_t(a), _as_t(b)
    if a.shape != b.shape:
        return False
    return and_(*(call_ufunc(np.equal, (a, b)).flat if a.shape else [raw(a)[()] == raw(b)[()]]))


def h_array_equiv(a, b):
    a, b = _as_t(a), _as_t(b)
    try:
        np.broadcast(raw(a), raw(b))
    except ValueError:
        return False
    r = call_ufunc(np.equal, (a, b))
    return and_(*(r.flat if isinstance(r, np.ndarray) else [r]))


def h_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = _as_t(a), _as_t(b)
    d = call_ufunc(np.absolute, (call_ufunc(np.subtract, (a, b)),))
    t = call_ufunc(np.absolute, (b,)) * rtol + atol
    return call_ufunc(np.less_equal, (d, t))


def h_allclose(a, b, **k):
    r = h_isclose(a, b, **k)
    return and_(*(r.flat if isinstance(r, np.ndarray) else [r]))


def h_norm(x, ord=None, axis=None, keepdims=False):
    x = _as_t(x)
    if ord not in (None, 2, 1) or (ord == 2 and axis is None and x.ndim > 1):
        raise Limit("norm order")
    if ord == 1:
        return abs(x).sum(axis=axis, keepdims=keepdims)
    s = (x * x).sum(axis=axis, keepdims=keepdims)
    return call_ufunc(np.sqrt, (s,))


def h_bincount(x, weights=None, minlength=0):
    x = _as_t(x)
    xi = [int(v) for v in raw(x)]
    n = max([minlength] + [v + 1 for v in xi])
    if weights is None:
        return tarr(np.bincount(np.array(xi, dtype=int), minlength=minlength))
    w = list(raw(_as_t(weights)))
    o = np.empty(n, dtype=object)
    o[:] = np.float64(0)
    for v, c in zip(xi, w):
        o[v] = o[v] + c
    return mk(o, F8)


def h_ravel_multi_index(mi, dims, mode="raise", order="C"):
    if mode != "raise" or order != "C":
        raise Limit("ravel_multi_index mode")
    mi = [_as_t(m) for m in mi]
    if any(m._ld.kind not in "iu" for m in mi):
        raise TypeError("only int indices permitted")
    ok = []
    out = None
    for m, d in zip(mi, dims):
        for v in (m.flat if m.shape else [raw(m)[()]]):
            ok.append(v >= 0)
            ok.append(v < int(d))
        out = m if out is None else out * int(d) + m
    if not bool(and_(*ok)):
        raise ValueError("invalid entry in coordinates array")
    return out


def h_unravel_index(idx, shape, order="C"):
    x = _as_t(idx)
    if x._ld.kind not in "iu":
        raise TypeError("only int indices permitted")
    n = 1
    for s in shape:
        n *= int(s)
    ok = [and_(v >= 0, v < n) for v in (x.flat if x.shape else [raw(x)[()]])]
    if not bool(and_(*ok)):
        raise ValueError("index out of bounds for array")
    out = []
    for s in reversed([int(s) for s in shape]):
        out.append(x % s)
        x = x // s
    r = []
    for o in reversed(out):
        r.append(o[()] if isinstance(o, np.ndarray) and o.shape == () else o)
    return tuple(r)


def h_repeat(a, repeats, axis=None):
    r = resolve_index(repeats) if isinstance(repeats, (TArr, Sym)) else repeats
    x = _as_t(a)
    return mk(np.repeat(raw(x), r, axis=axis), x._ld)


def h_delete(arr, obj, axis=None):
    x = _as_t(arr)
    obj = resolve_index(obj) if not isinstance(obj, (int, slice)) else obj
    if isinstance(obj, TArr):
        obj = native(obj)
    return mk(np.delete(raw(x), obj, axis=axis), x._ld)


def h_polyfit(x, y, deg, **kw):
    """Least squares at known x are linear in y, with numpy's own coefficients."""
    if has_sym(x):
        raise Limit("polyfit of unknown x")
    xs = np.array([float(v) for v in np.asarray(x).ravel()])
    m = np.array([np.polyfit(xs, row, deg, **kw) for row in np.eye(len(xs))]).T
    ys = _as_t(y)
    return tarr([sum(float(a) * ys[i] for i, a in enumerate(row)) for row in m])


def h_polyval(p, x):
    y = 0
    for c in _as_t(p):
        y = y * x + c
    return y


def h_count_nonzero(a, axis=None, keepdims=False):
    a = _as_t(a)
    b = call_ufunc(np.not_equal, (a, 0)) if a._ld != B1 else a
    return _reduce(np.add, b, axis, keepdims)


def h_gradient(f, *var, axis=None, edge_order=1):
    """Second-order central differences with uniform spacing, as numpy's."""
    f = _as_t(f)
    nd = f.ndim
    axes = tuple(range(nd)) if axis is None else (axis if isinstance(axis, tuple) else (axis,))
    if len(var) == 0:
        dx = [1.0] * len(axes)
    elif len(var) == 1:
        dx = list(var) * len(axes)
    else:
        dx = list(var)
    outs = []
    for ax, h in zip(axes, dx):
        m = np.moveaxis(raw(f), ax, 0)
        if np.ndim(h) == 1:
            hh = [h[i + 1] - h[i] for i in range(len(h) - 1)]
        else:
            hh = [h] * (m.shape[0] - 1)
        o = np.empty(m.shape, dtype=object)
        n = m.shape[0]
        for j in np.ndindex(m.shape[1:]):
            g = lambda k: m[(k,) + j]
            for k in range(n):
                if k == 0:
                    o[(k,) + j] = (g(1) - g(0)) / hh[0]
                elif k == n - 1:
                    o[(k,) + j] = (g(k) - g(k - 1)) / hh[-1]
                elif np.ndim(h) == 0:
                    o[(k,) + j] = (g(k + 1) - g(k - 1)) / (2.0 * h)
                else:
                    a, b = hh[k - 1], hh[k]
                    o[(k,) + j] = (
                        -b / (a * (a + b)) * g(k - 1)
                        + (b - a) / (a * b) * g(k)
                        + a / (b * (a + b)) * g(k + 1)
                    )
        outs.append(mk(np.moveaxis(o, 0, ax), F8))
    return outs[0] if len(outs) == 1 else outs


def h_maxmin(uf):
    def f(a, axis=None, out=None, keepdims=False, **k):
        return _reduce(uf, a, axis, keepdims)

    return f


def _m(name):
    def f(a, *args, **k):
        return getattr(_as_t(a), name)(*args, **k)

    return f


def h_intersect1d(a, b, **k):
    a = h_unique(a)
    return a[tarr(h_isin(a, b))]


def h_setdiff1d(a, b, **k):
    a = h_unique(a)
    return a[tarr(h_isin(a, b, invert=True))]


def h_append(arr, values, axis=None):
    if axis is None:
        return h_concat([_as_t(arr).reshape(-1), _as_t(values).reshape(-1)])
    return h_concat([arr, values], axis=axis)


def h_concat(arrays, axis=0, **k):
    xs = [_as_t(a) for a in arrays]
    ld = OBJ if any(x._ld == OBJ for x in xs) else np.result_type(*[x._ld for x in xs])
    o = np.concatenate([raw(x) for x in xs], axis=axis)
    r = mk(o, ld)
    if ld != OBJ and len({x._ld for x in xs}) > 1:
        _castall(r, ld)
    return r


def _stacker(fn):
    def f(tup, *a, **k):
        xs = [_as_t(t) for t in tup]
        ld = OBJ if any(x._ld == OBJ for x in xs) else np.result_type(*[x._ld for x in xs])
        o = fn([raw(x) for x in xs], *a, **k)
        r = mk(o, ld)
        if ld != OBJ and len({x._ld for x in xs}) > 1:
            _castall(r, ld)
        return r

    return f


def _structural(fn):
    """Shape-only functions: run numpy's implementation on the object arrays."""

    def f(*a, **k):
        lds = []

        def g(x):
            if isinstance(x, TArr):
                lds.append(x._ld)
                return raw(x)
            if isinstance(x, (list, tuple)) and has_sym(x):
                x = tarr(x)
                lds.append(x._ld)
                return raw(x)
            if isinstance(x, Sym):
                x = tarr(x)
                lds.append(x._ld)
                return raw(x)
            if isinstance(x, (list, tuple)):
                return type(x)(g(v) for v in x)
            return x

        r = fn(*[g(x) for x in a], **{kk: g(v) for kk, v in k.items()})
        ld = lds[0] if lds else None

        def w(x):
            if isinstance(x, np.ndarray) and not isinstance(x, TArr):
                return mk(x, ld) if np.ndarray.dtype.__get__(x) == OBJ else tarr(x)
            if isinstance(x, (list, tuple)):
                return type(x)(w(v) for v in x)
            return x

        return w(r)

    return f


def h_meshgrid(*xi, **k):
    xs = [_as_t(x) for x in xi]
    r = np.meshgrid(*[raw(x) for x in xs], **k)
    return [mk(o, x._ld) for o, x in zip(r, xs)]


def h_broadcast_arrays(*a, **k):
    xs = [_as_t(x) for x in a]
    return [mk(o, x._ld) for o, x in zip(np.broadcast_arrays(*[raw(x) for x in xs]), xs)]


def h_take(a, indices, axis=None, out=None, mode="raise"):
    x = _as_t(a)
    i = resolve_index(indices if isinstance(indices, (np.ndarray, list, Sym)) else np.asarray(indices))
    n = x.size if axis is None else x.shape[axis]
    if np.size(i) and mode == "raise" and not (np.min(i) >= -n and np.max(i) < n):
        raise IndexError("index out of bounds for axis of size %d" % n)
    at = np.take(np.arange(x.size).reshape(x.shape), np.asarray(i, dtype=int), axis=axis, mode=mode)
    r = mk(np.array(raw(x).reshape(-1)[at].tolist() if not np.ndim(at) else raw(x).reshape(-1)[at], dtype=object), x._ld) if np.ndim(at) else raw(x).reshape(-1)[int(at)]
    return r


FN = {
    np.take: h_take,
    np.dot: h_matmul,
    np.argmin: lambda a, axis=None, **k: h_argext(a, axis, operator.lt),
    np.argmax: lambda a, axis=None, **k: h_argext(a, axis, operator.gt),
    np.nanargmin: lambda a, axis=None, **k: h_nanargext(a, axis, operator.lt),
    np.nanargmax: lambda a, axis=None, **k: h_nanargext(a, axis, operator.gt),
    np.nanmin: h_nanred(np.minimum),
    np.nanmax: h_nanred(np.maximum),
    np.nanmean: h_nanred("mean"),
    np.nansum: h_nanred(np.add),
    np.min: h_maxmin(np.minimum),
    np.max: h_maxmin(np.maximum),
    np.amin: h_maxmin(np.minimum),
    np.amax: h_maxmin(np.maximum),
    np.sum: _m("sum"),
    np.prod: _m("prod"),
    np.mean: _m("mean"),
    np.std: _m("std"),
    np.var: _m("var"),
    np.all: _m("all"),
    np.any: _m("any"),
    np.cumsum: _m("cumsum"),
    np.round: h_round,
    np.around: h_round,
    np.clip: h_clip,
    np.nonzero: h_nonzero,
    np.flatnonzero: lambda a: h_nonzero(_as_t(a).reshape(-1))[0],
    np.argwhere: lambda a: _stacker(np.column_stack)(h_nonzero(a)),
    np.where: h_where,
    np.searchsorted: h_searchsorted,
    np.argsort: h_argsort,
    np.sort: h_sort,
    np.lexsort: h_lexsort,
    np.unique: h_unique,
    np.isin: h_isin,
    np.in1d: h_isin,
    np.diff: h_diff,
    np.interp: h_interp,
    np.average: h_average,
    np.cov: h_cov,
    np.linspace: h_linspace,
    np.insert: h_insert,
    np.append: h_append,
    np.delete: h_delete,
    np.array_equal: h_array_equal,
    np.array_equiv: h_array_equiv,
    np.isclose: h_isclose,
    np.allclose: h_allclose,
    np.linalg.norm: h_norm,
    np.bincount: h_bincount,
    np.ravel_multi_index: h_ravel_multi_index,
    np.unravel_index: h_unravel_index,
    np.repeat: h_repeat,
    np.polyval: h_polyval,
    np.polyfit: h_polyfit,
    np.count_nonzero: h_count_nonzero,
    np.gradient: h_gradient,
    np.intersect1d: h_intersect1d,
    np.setdiff1d: h_setdiff1d,
    np.concatenate: h_concat,
    np.vstack: _stacker(np.vstack),
    np.row_stack: _stacker(np.vstack),
    np.hstack: _stacker(np.hstack),
    np.column_stack: _stacker(np.column_stack),
    np.dstack: _stacker(np.dstack),
    np.stack: _stacker(np.stack),
    np.meshgrid: h_meshgrid,
    np.broadcast_arrays: h_broadcast_arrays,
    np.outer: lambda a, b: _as_t(a).reshape(-1, 1) * _as_t(b).reshape(1, -1),
    np.full_like: lambda a, v, dtype=None, **k: h_full(_as_t(a).shape, v, dtype or _as_t(a)._ld),
    np.zeros_like: lambda a, dtype=None, **k: h_full(_as_t(a).shape, 0, dtype or _as_t(a)._ld),
    np.ones_like: lambda a, dtype=None, **k: h_full(_as_t(a).shape, 1, dtype or _as_t(a)._ld),
    np.empty_like: lambda a, dtype=None, **k: h_full(_as_t(a).shape, 0, dtype or _as_t(a)._ld),
    np.copy: lambda a, **k: tarr(a),
    np.nan_to_num: lambda a, **k: a,
    np.trapz: lambda y, x=None, dx=1.0, axis=-1: ((_as_t(y)[1:] + _as_t(y)[:-1]) / 2 * (h_diff(x) if x is not None else dx)).sum(),
}
for _f in (
    np.reshape, np.ravel, np.transpose, np.squeeze, np.atleast_1d, np.atleast_2d,
    np.atleast_3d, np.flip, np.fliplr, np.flipud, np.expand_dims, np.moveaxis,
    np.swapaxes, np.roll, np.tile, np.split, np.array_split, np.broadcast_to,
    np.rot90, np.diagonal, np.diag, np.triu, np.tril, np.hsplit, np.vsplit,
    np.ndim, np.shape, np.size,
):
    FN[_f] = _structural(_f)
_STRUCT = {
    np.reshape, np.ravel, np.transpose, np.squeeze, np.atleast_1d, np.atleast_2d,
    np.atleast_3d, np.flip, np.fliplr, np.flipud, np.expand_dims, np.moveaxis,
    np.swapaxes, np.broadcast_to, np.split, np.rot90, np.ndim, np.shape, np.size,
}


def dispatch_function(func, args, kwargs):
    if func in _STRUCT:
        return FN[func](*args, **kwargs)
    if not has_sym(args) and not has_sym(kwargs):
        with np.errstate(all="ignore"):
            return rewrap(func(*native(args), **native(kwargs)))
    h = FN.get(func)
    if h is not None:
        return h(*args, **kwargs)
    why = "numpy function %s of symbolic values" % getattr(func, "__name__", func)
    return rewrap(func(*concretise(args, why), **concretise(kwargs, why)))


core._DISPATCH["ufunc"] = dispatch_ufunc
core._DISPATCH["function"] = dispatch_function
core._DISPATCH["array"] = tarr


# ------------------------------------------------------------------ module shim


def _deep_has(x):
    if isinstance(x, (Sym, core.Dtd, TArr, TFlat)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_deep_has(v) for v in x)
    if isinstance(x, dict):
        return any(_deep_has(v) for v in x.values())
    return False


class Shim:
    """Stands in for a numpy (sub)module in the namespace of a glimpse module."""

    def __init__(self, mod, special=None):
        object.__setattr__(self, "_mod", mod)
        object.__setattr__(self, "_special", special or {})
        object.__setattr__(self, "_cache", {})

    def __getattr__(self, name):
        if name in self._special:
            return self._special[name]
        if name in self._cache:
            return self._cache[name]
        v = getattr(self._mod, name)
        if isinstance(v, type) or not callable(v):
            if type(v).__name__ == "module":
                v = Shim(v, SUB.get(v.__name__))
        else:
            v = wrapfn(v)
        self._cache[name] = v
        return v


class wrapfn:
    def __init__(self, f):
        self._f = f
        self.__name__ = getattr(f, "__name__", str(f))

    def __call__(self, *a, **k):
        f = self._f
        if _deep_has(a) or _deep_has(k):
            if isinstance(f, np.ufunc):
                if not has_sym(a) and not has_sym(k) and "out" not in k:
                    with np.errstate(all="ignore"):
                        return rewrap(f(*native(a), **native(k)))
                return dispatch_ufunc(f, "__call__", *a, **k)
            return dispatch_function(f, a, k)
        return rewrap(f(*a, **k))

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __eq__(self, o):
        return self is o or self._f is o

    def __hash__(self):
        return hash(self._f)

    def reduce(self, x, **k):
        return dispatch_ufunc(self._f, "reduce", x, **k)

    def accumulate(self, x, **k):
        return dispatch_ufunc(self._f, "accumulate", x, **k)

    def at(self, a, *args):
        return dispatch_ufunc(self._f, "at", a, *args) if isinstance(a, TArr) else self._f.at(a, *args)

    def outer(self, *args, **k):
        return dispatch_ufunc(self._f, "outer", *args, **k)


def s_array(x, dtype=None, copy=True, ndmin=0, **k):
    dt = None if dtype is None else _dt(dtype)
    if isinstance(x, np.generic):
        x = np.asarray(x)
    r = tarr(_listify(x), dtype=dt)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def _listify(x):
    if isinstance(x, (list, tuple, np.ndarray, Sym, core.Dtd)):
        return x
    if hasattr(x, "__array__"):
        return np.asarray(x)
    return x


def s_asarray(x, dtype=None, **k):
    if isinstance(x, TArr) and (dtype is None or _dt(dtype) == x._ld):
        return x
    return s_array(x, dtype=dtype)


def s_zeros(shape, dtype=float, **k):
    return h_full(shape, 0, dtype=dtype)


def s_ones(shape, dtype=float, **k):
    return h_full(shape, 1, dtype=dtype)


def s_arange(*a, dtype=None, **k):
    if has_sym(a):
        r = h_arange(*a)
    else:
        r = tarr(np.arange(*native(a), **k))
    return r if dtype is None else r.astype(dtype)


def s_iterable(x):
    return np.iterable(x) if not isinstance(x, Sym) else False


def s_issubdtype(a, b):
    if isinstance(a, Sym):
        a = a.dtype
    return np.issubdtype(getattr(a, "_native", a), getattr(b, "_native", b))


def s_atleast_1d(*xs):
    r = []
    for x in xs:
        if not isinstance(x, TArr):
            x = s_asarray(x)
        r.append(x.reshape(1) if x.ndim == 0 else x)
    return r[0] if len(r) == 1 else r


def s_atleast_2d(*xs):
    r = []
    for x in xs:
        if not isinstance(x, TArr):
            x = s_asarray(x)
        if x.ndim == 0:
            x = x.reshape(1, 1)
        elif x.ndim == 1:
            x = x[None, :]
        r.append(x)
    return r[0] if len(r) == 1 else r


class _float64(type):
    pass


SPECIAL = {
    "array": s_array,
    "asarray": s_asarray,
    "asanyarray": s_asarray,
    "ascontiguousarray": s_asarray,
    "zeros": s_zeros,
    "empty": s_zeros,
    "ones": s_ones,
    "full": h_full,
    "arange": s_arange,
    "iterable": s_iterable,
    "issubdtype": s_issubdtype,
    "atleast_1d": s_atleast_1d,
    "atleast_2d": s_atleast_2d,
    "ndim": lambda x: 0 if isinstance(x, Sym) else np.ndim(x),
    "isscalar": lambda x: True if isinstance(x, Sym) else np.isscalar(x),
}
SUB = {}


class Random:
    """np.random itself, of arrays whose elements it cannot swap."""

    def __getattr__(self, name):
        return getattr(np.random, name)

    def shuffle(self, x):
        if isinstance(x, TArr):
            x[:] = x[np.random.permutation(len(x))].copy()
        else:
            np.random.shuffle(x)

    def permutation(self, x):
        return x[np.random.permutation(len(x))] if isinstance(x, TArr) else np.random.permutation(x)

    def choice(self, a, *args, **k):
        return a[np.random.choice(len(a), *args, **k)] if isinstance(a, TArr) else np.random.choice(a, *args, **k)


SPECIAL["random"] = Random()


def np_shim(random=None):
    """A fresh stand-in for numpy; `random` optionally replaces np.random."""
    sp = dict(SPECIAL)
    if random is not None:
        sp["random"] = random
    return Shim(np, sp)
