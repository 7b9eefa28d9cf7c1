"""Further numpy, math and builtin functions over symbolic values.

Most of them are not used by the code as it stands: they are here so that a rewrite of it
that keeps its behaviour can still be executed symbolically.
"""

import datetime as _datetime
import itertools
import math
import operator
import sys

import numpy as np

from . import arr, core
from .arr import (
    B1, F8, FN, I8, OBJ, SPECIAL, TArr, UF, _as_t, _dt, _fold, _reduce, call_ufunc, cast,
    h_concat, h_diff, h_matmul, h_sort, h_unique, h_where, mk, raw, tarr,
)
from .core import Limit, Sym, SymBool, SymInt, SymNum, SymReal, and_, ite, not_, or_


def _axes(x, axis):
    """The array and the axis, flattened where no axis is given."""
    x = _as_t(x)
    return (x.reshape(-1), 0) if axis is None else (x, operator.index(axis))


def _scalar(r):
    return r[()] if isinstance(r, TArr) and r.shape == () else r


# ------------------------------------------------------------------ selection


def h_select(condlist, choicelist, default=0):
    out = _as_t(default)
    for c, v in reversed(list(zip(condlist, choicelist))):
        out = h_where(c, v, out)
    return out


def h_choose(a, choices, out=None, mode="raise"):
    a = _as_t(a)
    r = _as_t(choices[-1])
    for k in range(len(choices) - 1, -1, -1):
        r = h_where(a == k, choices[k], r)
    if mode != "raise" or not and_(*[and_(v >= 0, v < len(choices)) for v in raw(a).flat]):
        raise ValueError("invalid entry in choice array")
    return r


def h_piecewise(x, condlist, funclist, *args, **kw):
    x = _as_t(x)
    conds = [_as_t(c) for c in (condlist if isinstance(condlist, (list, tuple)) else [condlist])]
    funcs = list(funclist)
    if len(funcs) == len(conds) + 1:
        rest = conds[0]
        for c in conds[1:]:
            rest = rest | c
        conds.append(~rest)
    out = arr.h_full(x.shape, 0, x._ld)
    for c, f in zip(conds, funcs):
        m = arr.resolve_index(c)
        if np.any(m):
            out[m] = f(x[m], *args, **kw) if callable(f) else f
    return out


def h_extract(condition, a):
    return _as_t(a).reshape(-1)[_as_t(condition).reshape(-1)]


def h_compress(condition, a, axis=None, out=None):
    x, axis = _axes(a, axis)
    m = arr.resolve_index(_as_t(condition))
    return mk(np.compress(m, raw(x), axis=axis), x._ld)


def h_take_along_axis(a, indices, axis):
    x, ax = _axes(a, axis)
    i = arr.resolve_index(_as_t(indices))
    return mk(np.take_along_axis(raw(x), i, ax), x._ld)


def h_union1d(a, b):
    return h_unique(h_concat([_as_t(a).reshape(-1), _as_t(b).reshape(-1)]))


# ------------------------------------------------------------------ statistics


def h_ptp(a, axis=None, out=None, keepdims=False):
    return _reduce(np.maximum, a, axis, keepdims) - _reduce(np.minimum, a, axis, keepdims)


def h_quantile(scale, skipna=False):
    def one(vals, q, method):
        vals = list(vals)
        if any(core._isnan(v) for v in vals):
            if not skipna:
                return core.NAN
            vals = [v for v in vals if not core._isnan(v)]
        if not vals:
            return core.NAN
        s = [vals[j] for j in arr._order(vals)]
        t = q * (len(s) - 1)
        k = min(max(int(math.floor(t)), 0), len(s) - 1)
        j = min(k + 1, len(s) - 1)
        if method == "lower":
            return s[k]
        if method == "higher":
            return s[int(math.ceil(t))]
        if method == "nearest":
            return s[int(np.rint(t))]
        if method == "midpoint":
            return s[k] if t == k else (s[k] + s[j]) / 2
        if method != "linear":
            raise Limit("quantile method " + method)
        return s[k] + (s[j] - s[k]) * float(t - k) if j > k and t > k else s[k]

    def f(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, interpolation=None, **kw):
        x = _as_t(a)
        if axis is not None and isinstance(axis, tuple):
            raise Limit("quantile over several axes")
        if arr.has_sym(q):
            raise Limit("symbolic quantile")
        qs = np.asarray(arr.native(q), dtype=float) / scale
        if np.any(qs < 0) or np.any(qs > 1):
            raise ValueError("Quantiles must be in the range [0, 1]")
        m = raw(x).reshape(-1, 1)[:, 0] if axis is None else np.moveaxis(raw(x), axis, 0)
        o = np.empty(qs.shape + m.shape[1:], dtype=object)
        for i in np.ndindex(m.shape[1:]):
            for k in np.ndindex(qs.shape):
                v = one([m[(j,) + i] for j in range(m.shape[0])], float(qs[k]), interpolation or method)
                o[k + i] = cast(v, F8)
        r = mk(o, F8)
        if keepdims:
            shape = (1,) * x.ndim if axis is None else x.shape[:axis] + (1,) + x.shape[axis:][1:]
            r = r.reshape(qs.shape + shape)
        return _scalar(r)

    return f


def h_median(skipna):
    q = h_quantile(1.0, skipna)

    def f(a, axis=None, out=None, overwrite_input=False, keepdims=False, **kw):
        return q(a, 0.5, axis=axis, keepdims=keepdims)

    return f


def h_nanvar(root):
    def f(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        x, ax = _axes(a, axis)
        m = np.moveaxis(raw(x), ax, 0)
        o = np.empty(m.shape[1:], dtype=object)
        for i in np.ndindex(m.shape[1:]):
            vals = [m[(j,) + i] for j in range(m.shape[0])]
            vals = [v for v in vals if not core._isnan(v)]
            if len(vals) - ddof <= 0:
                o[i] = core.NAN
                continue
            c = _fold("add", np.add, vals, F8) / len(vals)
            s = _fold("add", np.add, [(v - c) * (v - c) for v in vals], F8) / (len(vals) - ddof)
            o[i] = core.sqrt(s) if root else s
        r = mk(o, F8)
        if keepdims:
            r = arr.mk(np.expand_dims(raw(r), ax), F8)
        return _scalar(r)

    return f


def h_nancum(uf, start):
    def f(a, axis=None, dtype=None, out=None):
        x, ax = _axes(a, axis)
        o = raw(x).copy()
        for i in np.ndindex(o.shape):
            if core._isnan(o[i]):
                o[i] = cast(start, x._ld)
        return arr.dispatch_ufunc(uf, "accumulate", mk(o, x._ld), axis=ax)

    return f


def h_digitize(x, bins, right=False):
    b = _as_t(bins)
    if b.size > 1 and b[0] > b[-1]:
        return b.size - arr.h_searchsorted(b[::-1], x, "left" if not right else "right")
    return arr.h_searchsorted(b, x, "left" if right else "right")


def h_histogram(a, bins=10, range=None, density=None, weights=None):
    x = _as_t(a).reshape(-1)
    if np.ndim(bins) == 0:
        n = operator.index(bins)
        lo, hi = range if range is not None else (x.min(), x.max())
        if lo == hi:
            lo, hi = lo - 0.5, hi + 0.5
        edges = arr.h_linspace(lo, hi, n + 1)
    else:
        edges = _as_t(bins)
    w = [1] * x.size if weights is None else list(raw(_as_t(weights)).reshape(-1))
    e = list(raw(edges))
    out = []
    for k in builtins_range(len(e) - 1):
        last = k == len(e) - 2
        vals = [ite(and_(v >= e[k], (v <= e[k + 1]) if last else (v < e[k + 1])), wi, 0) for v, wi in zip(raw(x), w)]
        out.append(_fold("add", np.add, vals, I8 if weights is None else F8))
    h = tarr(out)
    if density:
        h = h / h.sum() / h_diff(edges)
    return h, edges


builtins_range = range


# ------------------------------------------------------------------ products


def h_cumprod(a, axis=None, dtype=None, out=None):
    x, ax = _axes(a, axis)
    return arr.dispatch_ufunc(np.multiply, "accumulate", x, axis=ax)


def h_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = _as_t(a), _as_t(b)
    a = mk(np.moveaxis(raw(a), axisa, -1), a._ld)
    b = mk(np.moveaxis(raw(b), axisb, -1), b._ld)
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Limit("cross product of mixed dimensions")
    r = [a[..., i] * b[..., j] - a[..., j] * b[..., i] for i, j in ((1, 2), (2, 0), (0, 1))]
    r = arr._stacker(np.stack)(r, axis=-1)
    return mk(np.moveaxis(raw(r), -1, axisc), r._ld)


def h_inner(a, b):
    a, b = _as_t(a), _as_t(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return h_tensordot(a, b, axes=([-1], [-1]))


def h_vdot(a, b):
    return (_as_t(a).reshape(-1) * _as_t(b).reshape(-1)).sum()


def h_tensordot(a, b, axes=2):
    a, b = _as_t(a), _as_t(b)
    if np.ndim(axes) == 0:
        n = operator.index(axes)
        aa, bb = list(range(a.ndim - n, a.ndim)), list(range(n))
    else:
        aa, bb = [list(np.atleast_1d(x)) for x in axes]
    aa, bb = [int(x) % a.ndim for x in aa], [int(x) % b.ndim for x in bb]
    ra = [k for k in range(a.ndim) if k not in aa]
    rb = [k for k in range(b.ndim) if k not in bb]
    shape = tuple(a.shape[k] for k in ra) + tuple(b.shape[k] for k in rb)
    n = int(np.prod([a.shape[k] for k in aa])) if aa else 1
    x = mk(np.transpose(raw(a), ra + aa).reshape(-1, n), a._ld)
    y = mk(np.transpose(raw(b), bb + rb).reshape(n, -1), b._ld)
    return _scalar(h_matmul(x, y).reshape(shape))


def h_einsum(spec, *ops, out=None, optimize=False, **kw):
    if not isinstance(spec, str) or "." in spec:
        raise Limit("einsum without explicit subscripts")
    xs = [_as_t(o) for o in ops]
    lhs, _, rhs = spec.replace(" ", "").partition("->")
    terms = lhs.split(",")
    if "->" not in spec:
        rhs = "".join(sorted(c for c in set(lhs) - {","} if lhs.count(c) == 1))
    size = {}
    for t, x in zip(terms, xs):
        if len(t) != x.ndim:
            raise ValueError("einstein sum subscripts string does not match the operand")
        for c, n in zip(t, x.shape):
            if size.setdefault(c, n) != n:
                if 1 not in (size[c], n):
                    raise ValueError("operands could not be broadcast together with remapped shapes")
                size[c] = max(size[c], n)
    rest = [c for c in size if c not in rhs]
    ld = np.result_type(*[x._ld for x in xs])
    o = np.empty(tuple(size[c] for c in rhs), dtype=object)
    for i in np.ndindex(o.shape):
        at = dict(zip(rhs, i))
        total = []
        for j in itertools.product(*[range(size[c]) for c in rest]):
            at.update(zip(rest, j))
            p = None
            for t, x in zip(terms, xs):
                v = raw(x)[tuple(at[c] if x.shape[k] > 1 else 0 for k, c in enumerate(t))]
                p = v if p is None else p * v
            total.append(p)
        o[i] = _fold("add", np.add, total, ld)
    return _scalar(mk(o, ld))


def h_kron(a, b):
    a, b = _as_t(a), _as_t(b)
    if a.ndim != b.ndim or a.ndim not in (1, 2):
        raise Limit("kron of arrays of different dimensions")
    if a.ndim == 1:
        return (a.reshape(-1, 1) * b.reshape(1, -1)).reshape(-1)
    r = a.reshape(a.shape[0], 1, a.shape[1], 1) * b.reshape(1, b.shape[0], 1, b.shape[1])
    return r.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def h_trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    x = _as_t(a)
    d = mk(np.diagonal(raw(x), offset, axis1, axis2).copy(), x._ld)
    return d.sum(axis=-1)


def h_convolve(a, v, mode="full"):
    a, v = _as_t(a).reshape(-1), _as_t(v).reshape(-1)
    if v.size > a.size:
        a, v = v, a
    n, m = a.size, v.size
    x, y = raw(a), raw(v)
    ld = np.result_type(a._ld, v._ld)
    full = [
        _fold("add", np.add, [x[i] * y[k - i] for i in range(n) if 0 <= k - i < m], ld)
        for k in range(n + m - 1)
    ]
    if mode == "valid":
        full = full[m - 1:n]
    elif mode == "same":
        full = full[(m - 1) // 2:(m - 1) // 2 + n]
    return tarr(full)


def h_correlate(a, v, mode="valid"):
    a, v = _as_t(a).reshape(-1), _as_t(v).reshape(-1)
    if v.size > a.size:
        return h_convolve(a, v[::-1], mode)[::-1] if mode == "valid" else h_convolve(a, v[::-1], mode)
    return h_convolve(a, v[::-1], mode)


# ------------------------------------------------------------------ differences


def h_diff2(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    x = _as_t(a)
    parts = [x]
    for v, first in ((prepend, True), (append, False)):
        if v is np._NoValue:
            continue
        v = _as_t(v)
        if v.ndim == 0:
            shape = list(x.shape)
            shape[axis] = 1
            v = mk(np.broadcast_to(raw(v), tuple(shape)), v._ld)
        parts = [v] + parts if first else parts + [v]
    if len(parts) > 1:
        x = h_concat(parts, axis=axis)
    return h_diff(x, n=n, axis=axis)


def h_ediff1d(ary, to_end=None, to_begin=None):
    parts = [h_diff(_as_t(ary).reshape(-1))]
    if to_begin is not None:
        parts.insert(0, _as_t(to_begin).reshape(-1))
    if to_end is not None:
        parts.append(_as_t(to_end).reshape(-1))
    return h_concat(parts)


# ------------------------------------------------------------------ elements


def copysign(a, b):
    a = abs(a)
    if isinstance(b, Sym):
        return ite(b >= 0, a, -a)
    return -a if np.signbit(b) else a


def fmod(a, b):
    return a - b * core.trunc(a / b)


def heaviside(x, h):
    return ite(x > 0, 1.0, ite(x < 0, 0.0, h))


def signbit(x):
    return x < 0


def cbrt(x):
    if x >= 0:
        return core.power(x, 1 / 3)
    return -core.power(-x, 1 / 3)


UF.update(
    copysign=copysign, fmod=fmod, heaviside=heaviside, signbit=signbit, cbrt=cbrt,
    tan=lambda x: core.sin(x) / core.cos(x),
    ldexp=lambda a, b: a * 2**b,
)
arr.BOOLRES.add("signbit")


def h_fix(x, out=None):
    return call_ufunc(np.trunc, (x,))


def h_divmod(a, b):
    return call_ufunc(np.floor_divide, (a, b)), call_ufunc(np.remainder, (a, b))


def h_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    t = _as_t(x)
    o = raw(t).copy()
    if t._ld.kind == "f":
        top = np.finfo(t._ld).max
        for i in np.ndindex(o.shape):
            v = o[i]
            if isinstance(v, Sym):
                continue
            if core._isnan(v):
                o[i] = cast(nan, t._ld)
            elif np.isinf(v):
                o[i] = cast((top if posinf is None else posinf) if v > 0 else (-top if neginf is None else neginf), t._ld)
    r = mk(o, t._ld)
    if not copy and isinstance(x, TArr):
        x[...] = r
        return x
    return _scalar(r)


def h_array_equal(a, b, equal_nan=False):
    a, b = _as_t(a), _as_t(b)
    if a.shape != b.shape:
        return False
    terms = []
    for p, q in zip(raw(a).flat, raw(b).flat):
        if equal_nan and (core._isnan(p) or core._isnan(q)):
            if not (core._isnan(p) and core._isnan(q)):
                return False
            continue
        terms.append(UF["equal"](p, q))
    return and_(*terms) if terms else True


def h_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = _as_t(a), _as_t(b)
    ba, bb = np.broadcast_arrays(raw(a), raw(b))
    o = np.empty(ba.shape, dtype=object)
    for i in np.ndindex(o.shape):
        p, q = ba[i], bb[i]
        if core._isnan(p) or core._isnan(q):
            o[i] = bool(equal_nan and core._isnan(p) and core._isnan(q))
        elif core._isinf(p) or core._isinf(q):
            o[i] = bool(not isinstance(p, Sym) and not isinstance(q, Sym) and p == q)
        else:
            o[i] = abs(p - q) <= abs(q) * rtol + atol
    return _scalar(mk(o, B1))


def h_allclose(a, b, **k):
    r = h_isclose(a, b, **k)
    return and_(*(r.flat if isinstance(r, np.ndarray) else [r]))


# ------------------------------------------------------------------ shapes


def h_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if np.ndim(start) or np.ndim(stop):
        start, stop = arr.h_broadcast_arrays(start, stop)
        flat = [
            h_linspace(p, q, num, endpoint, dtype=dtype)
            for p, q in zip(raw(start).flat, raw(stop).flat)
        ]
        r = arr._stacker(np.stack)(flat, axis=-1).reshape((num,) + start.shape)
        r = mk(np.moveaxis(raw(r), 0, axis), r._ld)
    else:
        r = arr.h_linspace(start, stop, num, endpoint, dtype=dtype)
    if retstep:
        div = num - 1 if endpoint else num
        return r, (stop - start) / div if div > 0 else core.NAN
    return r


def h_pad(array, pad_width, mode="constant", **kw):
    x = _as_t(array)
    at = np.arange(x.size).reshape(x.shape)
    if mode == "constant":
        at = np.pad(at, arr.native(pad_width), mode=mode, constant_values=-1)
        c = kw.get("constant_values", 0)
        if np.ndim(c):
            raise Limit("pad with several constants")
        o = np.empty(at.shape, dtype=object)
        flat = raw(x).reshape(-1)
        for i in np.ndindex(at.shape):
            o[i] = cast(c, x._ld) if at[i] < 0 else flat[at[i]]
        return mk(o, x._ld)
    if mode not in ("edge", "reflect", "symmetric", "wrap"):
        raise Limit("pad mode %s" % mode)
    at = np.pad(at, arr.native(pad_width), mode=mode, **kw)
    return mk(raw(x).reshape(-1)[at], x._ld)


def h_block(arrays):
    def depth(v):
        return 1 + max(depth(w) for w in v) if isinstance(v, list) and v else 0

    n = depth(arrays)

    def f(v, level):
        if isinstance(v, list):
            parts = [f(w, level - 1) for w in v]
            nd = max(n, *[p.ndim for p in parts])
            parts = [p.reshape((1,) * (nd - p.ndim) + p.shape) for p in parts]
            return h_concat(parts, axis=-level)
        return _as_t(v)

    return f(arrays, n)


def h_apply_along_axis(func1d, axis, a, *args, **kw):
    x = _as_t(a)
    m = np.moveaxis(raw(x), axis, -1)
    outs = {}
    for i in np.ndindex(m.shape[:-1]):
        outs[i] = _as_t(func1d(mk(m[i].copy(), x._ld), *args, **kw))
    shape = next(iter(outs.values())).shape
    o = np.empty(m.shape[:-1] + shape, dtype=object)
    for i, v in outs.items():
        o[i] = raw(v) if v.shape else raw(v)[()]
    lds = [v._ld for v in outs.values()]
    r = mk(o, OBJ if OBJ in lds else np.result_type(*lds))
    if shape:
        nd = m.ndim - 1
        for k in range(len(shape)):
            r = mk(np.moveaxis(raw(r), nd + k, axis + k if axis >= 0 else axis + m.ndim + k), r._ld)
    return r


def h_resize(a, new_shape):
    x = _as_t(a).reshape(-1)
    shape = arr._shape(new_shape)
    n = int(np.prod(shape))
    return mk(np.array(np.resize(raw(x), n), dtype=object), x._ld).reshape(shape)


def h_window(x, window_shape, axis=None, **kw):
    x = _as_t(x)
    at = np.lib.stride_tricks.sliding_window_view(np.arange(x.size).reshape(x.shape), window_shape, axis=axis)
    return mk(raw(x).reshape(-1)[at], x._ld)


def h_unwrap(p, discont=None, axis=-1, period=2 * np.pi):
    x = _as_t(p)
    d = h_diff(x, axis=axis)
    half = period / 2
    discont = half if discont is None else discont
    w = (d + half) % period - half
    w = h_where((w == -half) & (d > 0), half, w)
    c = h_where(call_ufunc(np.absolute, (d,)) < discont, 0, w - d)
    m = np.moveaxis(raw(x), axis, -1)
    acc = np.moveaxis(raw(arr.dispatch_ufunc(np.add, "accumulate", c, axis=axis)), axis, -1)
    o = m.copy()
    for i in np.ndindex(m.shape[:-1]):
        for k in range(1, m.shape[-1]):
            o[i + (k,)] = m[i + (k,)] + acc[i + (k - 1,)]
    return mk(np.moveaxis(o, -1, axis), F8)


def h_shares(a, b, *k, **kw):
    f = lambda v: raw(v) if isinstance(v, TArr) else v
    return np.shares_memory(f(a), f(b))


def h_place(a, mask, vals):
    m = arr.resolve_index(_as_t(mask))
    v = raw(_as_t(vals)).reshape(-1)
    n = int(m.sum())
    if n:
        a[m] = tarr([v[k % v.size] for k in range(n)])


def h_put(a, ind, v, mode="raise"):
    i = np.atleast_1d(arr.resolve_index(_as_t(ind))).reshape(-1)
    w = raw(_as_t(v)).reshape(-1)
    for k, j in enumerate(i):
        a[np.unravel_index(int(j), a.shape)] = w[k % w.size]


def h_putmask(a, mask, values):
    a[...] = h_where(mask, mk(np.resize(raw(_as_t(values)), a.shape), _as_t(values)._ld), a)


def h_copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = h_where(where, src, dst)


def h_reduction(uf):
    """A reduction with `initial` and `where`."""

    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=True):
        r = reduce(uf, a, axis, keepdims, dtype, initial, where)
        if out is not None:
            out[...] = r
            return out
        return r

    return f


def reduce(uf, a, axis=None, keepdims=False, dtype=None, initial=np._NoValue, where=True):
    keepdims = False if keepdims is np._NoValue else keepdims
    where = True if where is np._NoValue else where
    initial = np._NoValue if initial is None else initial
    x = _as_t(a)
    if where is not True:
        neutral = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}.get(uf.__name__, initial)
        if neutral is np._NoValue:
            raise ValueError(
                "reduction operation '%s' does not have an identity, so to use a where mask "
                "one has to specify 'initial'" % uf.__name__
            )
        x = h_where(where, x, neutral)
    r = _reduce(uf, x, axis, keepdims, dtype=dtype)
    if initial is not np._NoValue:
        r = call_ufunc(uf, (r, initial))
    return r


def h_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    keepdims = False if keepdims is np._NoValue else keepdims
    if where is True or where is np._NoValue:
        return _as_t(a).mean(axis=axis, dtype=dtype, keepdims=keepdims)
    x = _as_t(a)
    m = mk(np.broadcast_to(raw(_as_t(where)), x.shape), B1)
    n = _reduce(np.add, m, axis, keepdims)
    s = reduce(np.add, x, axis, keepdims, F8 if x._ld.kind in "iub" else None, where=m)
    return call_ufunc(np.true_divide, (s, n))


class Vectorize:
    """np.vectorize of functions of one or more arrays."""

    def __init__(self, pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        self.f, self.otypes = pyfunc, otypes
        if excluded or signature:
            raise Limit("vectorize with excluded arguments or a signature")

    def __call__(self, *args, **kw):
        xs = np.broadcast_arrays(*[raw(_as_t(a)) for a in args])
        o = np.empty(xs[0].shape, dtype=object)
        for i in np.ndindex(o.shape):
            o[i] = self.f(*[x[i] for x in xs], **kw)
        if o.size and isinstance(o.flat[0], tuple):
            n = len(o.flat[0])
            return tuple(
                mk(np.array([v[k] for v in o.flat] + [None], dtype=object)[:-1].reshape(o.shape))
                for k in range(n)
            )
        if not o.size:
            return mk(o, _dt(self.otypes[0]) if self.otypes else F8)
        # the first result decides the type of all of them
        ld = _dt(self.otypes[0]) if self.otypes else arr.elem_dtype(o.flat[0])
        r = mk(o, ld)
        if ld != OBJ:
            arr._castall(r, ld)
        return _scalar(r)


def s_fromiter(iter, dtype, count=-1, **kw):
    v = list(iter)
    if count >= 0:
        v = v[:count]
    return tarr(v, dtype=_dt(dtype)) if v else tarr(np.empty(0, dtype=_dt(dtype)))


class Joiner:
    """np.r_ and np.c_."""

    def __init__(self, real, columns):
        self.real, self.columns = real, columns

    def __getitem__(self, key):
        items = key if isinstance(key, tuple) else (key,)
        if not arr._deep_has(items):
            return arr.rewrap(self.real[key])
        parts = []
        for v in items:
            if isinstance(v, str):
                raise Limit("np.r_ with a directive")
            if isinstance(v, slice):
                a = (0 if v.start is None else v.start, v.stop)
                if isinstance(v.step, complex):
                    v = arr.h_linspace(a[0], a[1], int(abs(v.step)))
                else:
                    v = SPECIAL["arange"](*a, *(() if v.step is None else (v.step,)))
            parts.append(_as_t(v))
        if self.columns:
            parts = [p.reshape(p.shape if p.ndim > 1 else (-1, 1)) for p in parts]
            return h_concat(parts, axis=-1)
        nd = max(p.ndim for p in parts)
        parts = [p.reshape((1,) * (max(nd, 1) - p.ndim) + p.shape) for p in parts]
        return h_concat(parts, axis=0)


class _Scalar(type):
    """np.float64 and friends, of symbolic scalars."""

    def __instancecheck__(cls, x):
        return isinstance(x, cls._native)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "_native", c), cls._native)

    def __eq__(cls, o):
        return cls is o or cls._native is o or getattr(o, "_native", None) is cls._native

    def __hash__(cls):
        return hash(cls._native)

    def __getattr__(cls, name):
        return getattr(cls._native, name)


def _np_scalar(native):
    dt = np.dtype(native)

    class F(metaclass=_Scalar):
        _native = native
        dtype = dt
        __name__ = native.__name__

        def __new__(cls, x=0):
            if isinstance(x, (Sym, TArr)):
                return _scalar(_as_t(x).astype(dt)) if isinstance(x, TArr) else cast(x, dt)
            return native(x)

    return F


for _n in ("float64",):
    SPECIAL[_n] = _np_scalar(getattr(np, _n))
SPECIAL.update(
    vectorize=Vectorize, fromiter=s_fromiter, r_=Joiner(np.r_, False), c_=Joiner(np.c_, True),
    asfarray=lambda a, dtype=float: arr.s_asarray(a, dtype=dtype),
)
FN.update({
    np.select: h_select, np.choose: h_choose, np.piecewise: h_piecewise,
    np.extract: h_extract, np.compress: h_compress, np.take_along_axis: h_take_along_axis,
    np.union1d: h_union1d, np.ptp: h_ptp,
    np.quantile: h_quantile(1.0), np.percentile: h_quantile(100.0),
    np.nanquantile: h_quantile(1.0, True), np.nanpercentile: h_quantile(100.0, True),
    np.median: h_median(False), np.nanmedian: h_median(True),
    np.nanvar: h_nanvar(False), np.nanstd: h_nanvar(True),
    np.nancumsum: h_nancum(np.add, 0), np.nancumprod: h_nancum(np.multiply, 1),
    np.cumprod: h_cumprod, np.digitize: h_digitize, np.histogram: h_histogram,
    np.partition: lambda a, kth, axis=-1, **k: h_sort(a, axis),
    np.argpartition: lambda a, kth, axis=-1, **k: arr.h_argsort(a, axis),
    np.cross: h_cross, np.inner: h_inner, np.vdot: h_vdot, np.tensordot: h_tensordot,
    np.einsum: h_einsum, np.kron: h_kron, np.trace: h_trace,
    np.convolve: h_convolve, np.correlate: h_correlate,
    np.diff: h_diff2, np.ediff1d: h_ediff1d, np.fix: h_fix,
    np.nan_to_num: h_nan_to_num, np.array_equal: h_array_equal,
    np.isclose: h_isclose, np.allclose: h_allclose, np.linspace: h_linspace,
    np.pad: h_pad, np.block: h_block, np.apply_along_axis: h_apply_along_axis,
    np.resize: h_resize, np.unwrap: h_unwrap,
    np.lib.stride_tricks.sliding_window_view: h_window,
    np.shares_memory: h_shares, np.may_share_memory: h_shares,
    np.place: h_place, np.put: h_put, np.putmask: h_putmask, np.copyto: h_copyto,
    np.sum: h_reduction(np.add), np.prod: h_reduction(np.multiply),
    np.all: h_reduction(np.logical_and), np.any: h_reduction(np.logical_or),
    np.min: h_reduction(np.minimum), np.max: h_reduction(np.maximum),
    np.amin: h_reduction(np.minimum), np.amax: h_reduction(np.maximum),
    np.mean: h_mean,
})
arr.UFUNC[np.divmod] = h_divmod


# ------------------------------------------------------------------ math


def _m1(f, real):
    def g(x):
        if isinstance(x, TArr) and x.size == 1:
            x = raw(x).reshape(-1)[0]
        if isinstance(x, SymBool):
            x = x.num()
        return f(x) if isinstance(x, Sym) else real(x)

    g.__name__ = real.__name__
    return g


def _m2(f, real):
    def g(a, b):
        a, b = [raw(v).reshape(-1)[0] if isinstance(v, TArr) and v.size == 1 else v for v in (a, b)]
        return f(a, b) if isinstance(a, Sym) or isinstance(b, Sym) else real(a, b)

    g.__name__ = real.__name__
    return g


def _float(x):
    return cast(x, F8) if isinstance(x, Sym) else x


def _total(v):
    r = 0.0
    for x in v:
        r = r + x
    return r


def _domain(f):
    def g(x):
        if x < 0:
            raise ValueError("math domain error")
        return f(x)

    return g


MATH = {
    "sqrt": _m1(_domain(core.sqrt), math.sqrt),
    "sin": _m1(core.sin, math.sin),
    "cos": _m1(core.cos, math.cos),
    "tan": _m1(UF["tan"], math.tan),
    "atan": _m1(core.arctan, math.atan),
    "acos": _m1(core.arccos, math.acos),
    "exp": _m1(core.exp, math.exp),
    "log": lambda x, *b: core.log(x) if isinstance(x, Sym) else math.log(x, *b),
    "fabs": _m1(lambda x: abs(_float(x)), math.fabs),
    "floor": _m1(lambda x: x.__floor__(), math.floor),
    "ceil": _m1(lambda x: x.__ceil__(), math.ceil),
    "trunc": _m1(lambda x: x.__trunc__() if isinstance(x, SymReal) else x, math.trunc),
    "radians": _m1(lambda x: x * (math.pi / 180), math.radians),
    "degrees": _m1(lambda x: x * (180 / math.pi), math.degrees),
    "isnan": _m1(lambda x: False, math.isnan),
    "isinf": _m1(lambda x: False, math.isinf),
    "isfinite": _m1(lambda x: True, math.isfinite),
    "modf": _m1(lambda x: (x - core.trunc(x), core.trunc(x)), math.modf),
    "atan2": _m2(core.arctan2, math.atan2),
    "copysign": _m2(lambda a, b: _float(copysign(a, b)), math.copysign),
    "fmod": _m2(fmod, math.fmod),
    "pow": _m2(lambda a, b: core.power(_float(a), b), math.pow),
    "hypot": lambda *v: core.sqrt(_total([x * x for x in v])) if arr.has_sym(v) else math.hypot(*v),
    "fsum": lambda v: (lambda w: _total(w) if arr.has_sym(w) else math.fsum(w))(list(v)),
    "prod": lambda v, start=1: (lambda w: _product(w, start))(list(v)),
    "dist": lambda p, q: MATH["hypot"](*[a - b for a, b in zip(p, q)]),
    "isclose": lambda a, b, rel_tol=1e-09, abs_tol=0.0: (
        abs(a - b) <= core.maximum(rel_tol * core.maximum(abs(a), abs(b)), abs_tol)
        if isinstance(a, Sym) or isinstance(b, Sym)
        else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    ),
}


def _product(v, start):
    for x in v:
        start = start * x
    return start


class Math:
    """Stands in for the module math."""

    def __getattr__(self, name):
        return MATH.get(name) or getattr(math, name)


# ------------------------------------------------------------------ builtins


class _Builtin(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._native) or isinstance(x, cls._symbolic)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "_native", c), cls._native)

    def __eq__(cls, o):
        return cls is o or cls._native is o

    def __hash__(cls):
        return hash(cls._native)


class Float(float, metaclass=_Builtin):
    """float, of symbolic scalars too."""

    _native = float
    _symbolic = SymReal
    dtype = F8

    def __new__(cls, x=0.0):
        if isinstance(x, TArr) and x.size == 1:
            x = raw(x).reshape(-1)[0]
        if isinstance(x, Sym):
            return cast(x, F8)
        return float(x)


class Int(int, metaclass=_Builtin):
    """int, of which symbolic integers are instances."""

    _native = int
    _symbolic = SymInt
    dtype = I8

    def __new__(cls, *a, **k):
        return int(*a, **k)


def patch(m, shim, dt):
    """Stand-ins for what a module uses of numpy, math and datetime, however imported."""
    for name, v in list(vars(m).items()):
        if name.startswith("__"):
            continue
        if v is np:
            setattr(m, name, shim)
        elif v is math:
            setattr(m, name, Math())
        elif v is _datetime:
            setattr(m, name, dt)
        elif type(v).__name__ == "module":
            if v.__name__.startswith("numpy."):
                setattr(m, name, arr.Shim(v))
        elif getattr(v, "__module__", None) == "math" and v.__name__ in MATH:
            setattr(m, name, MATH[v.__name__])
        elif v in (_datetime.datetime, _datetime.timedelta) if isinstance(v, type) else False:
            setattr(m, name, getattr(dt, v.__name__))
        elif isinstance(v, np.ufunc) or (
            (getattr(v, "__module__", None) or "").split(".")[0] == "numpy"
            and getattr(np, getattr(v, "__name__", ""), None) is v
        ):
            setattr(m, name, getattr(shim, v.__name__))
    names = set()
    f = getattr(m, "__file__", None)
    if f:
        with open(f, encoding="utf-8") as h:
            source = h.read()
        names = {"float": Float, "int": Int}
        for name, v in names.items():
            if name in source and name not in vars(m):
                setattr(m, name, v)
