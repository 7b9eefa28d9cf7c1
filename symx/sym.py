"""Symbolic interpretation of a harness, and the path exploration loop."""
import contextlib
import datetime
import math
import os
import random
import signal
import sys
import time
import traceback
import types
from fractions import Fraction

import numpy as np
import z3

from . import api, arr, core, more, times
from .core import (
    Budget, Limit, PathEnd, Sym, SymBool, SymInt, SymNum, SymReal, and_, ite, not_, or_,
)


PINNED = [0.0]  # seconds spent on queries with fixed inputs, in this process


class Candidate:
    def __init__(self, label, values, detail):
        self.label, self.values, self.detail = label, values, detail


class Symbolic(api.Base):
    symbolic = True

    def __init__(self, ctx, config=None):
        super().__init__(config)
        self.ctx = ctx
        self.candidates = []
        self.inconclusive = []
        self.reached = []
        self.ranges = {}
        self.lost = False
        self._patches = []

    # ---- inputs
    def _input(self, name, kind, term):
        if name in self.ctx.inputs:
            raise RuntimeError("duplicate input " + name)
        self.ctx.inputs[name] = (kind, term)
        self.ctx.input_order.append(name)

    def real(self, name, lo, hi):
        v = z3.Real(name)
        self._input(name, "real", v)
        self.ctx.add(z3.And(v >= z3.RealVal(str(Fraction(lo))), v <= z3.RealVal(str(Fraction(hi)))))
        self.ctx.bounds[name] = max(abs(Fraction(lo)), abs(Fraction(hi)))
        self.ranges[name] = (Fraction(lo), Fraction(hi))
        return SymReal(v)

    def rand(self, name):
        v = z3.Real(name)
        self._input(name, "real", v)
        self.ctx.add(z3.And(v >= 0, v < 1))
        return SymReal(v)

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self._input(name, "int", v)
        self.ctx.add(z3.And(v >= lo, v <= hi))
        return SymInt(v)

    def bool(self, name):
        v = z3.Bool(name)
        self._input(name, "bool", v)
        return SymBool(v)

    def angle(self, name, lo=None, hi=None):
        """An angle in degrees given by an arbitrary point (c, s) of the unit circle."""
        c, s, v = z3.Real(name + ".c"), z3.Real(name + ".s"), z3.Real(name)
        self._input(name + ".c", "real", c)
        self._input(name + ".s", "real", s)
        self.ctx.add(c * c + s * s == 1)
        self.ctx.add(z3.And(c >= -1, c <= 1, s >= -1, s <= 1))
        self.ctx.bounds.update({name + ".c": 1, name + ".s": 1, name: 180})
        # the value of the angle itself is free, except for its quadrant
        self.ctx.add(z3.And(v > -180, v <= 180, z3.Implies(s > 0, v > 0), z3.Implies(s < 0, v < 0)))
        self.ctx.add(z3.Implies(z3.And(s == 0, c > 0), v == 0))
        self.ctx.add(z3.Implies(z3.And(s == 0, c < 0), v == 180))
        self.ctx.squares[name + ".s"] = 1 - c * c
        core.register_angle(name, SymReal(c), SymReal(s), math.pi / 180)
        return SymReal(v)

    def datetime(self, name, lo, hi, unit=1):
        return times.SDate(self.int(name, lo, hi) * unit)

    def timedelta(self, name, lo, hi, unit=1):
        return times.SDelta(self.int(name, lo, hi) * unit)

    def us(self, x):
        u = times.td_us(x)
        return u if u is not None else times.dt_us(x)

    def array(self, x, dtype=None):
        return arr.tarr(x, dtype=dtype)

    def objarray(self, x):
        o = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            o[i] = v
        return arr.mk(o, arr.OBJ)

    def rounding(self, bound):
        """Results of float arithmetic are off by at most bound (0: exact)."""
        self.ctx.rounding = bound

    def concrete(self, x):
        """Fork until an integer-valued term has one value on this path."""
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, SymNum):
            return int(x)
        return x

    # ---- logic, usable in oracles
    and_ = staticmethod(and_)
    or_ = staticmethod(or_)
    not_ = staticmethod(not_)
    ite = staticmethod(ite)
    sqrt = staticmethod(core.sqrt)
    exp = staticmethod(core.exp)
    floor = staticmethod(core.floor)
    ceil = staticmethod(core.ceil)
    cos = staticmethod(core.cos)
    sin = staticmethod(core.sin)
    min = staticmethod(core.minimum)
    max = staticmethod(core.maximum)
    isnan = staticmethod(core.isnan)
    abs = staticmethod(abs)

    def floori(self, x):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            return SymInt(z3.ToInt(x.e))
        return int(math.floor(x))

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = and_(*arr.raw(c).flat) if isinstance(c, arr.TArr) else bool(c.all())
        self.ctx.assume(c)

    def reach(self, label="reach"):
        self.reached.append(label)

    # ---- checks
    def _values(self, model):
        out = {}
        for n, (kind, t) in self.ctx.inputs.items():
            v = core.model_value(model, t)
            out[n] = v
        return out

    def _known_model(self, s):
        """A model found before, if it satisfies all that the solver has now (asked twice, it may not answer)."""
        for m in (self.ctx.model, getattr(self.ctx, "_side_model", None)):
            if m is not None and all(z3.is_true(m.eval(a, model_completion=True)) for a in s.assertions()):
                return m
        return None

    def nice_model(self, extra=None):
        """A model with short input values where the solver allows it."""
        c = self.ctx
        s = c.solver
        s.push()
        try:
            if extra is not None:
                s.add(extra)
            r = c._check()
            m = s.model() if r == z3.sat else self._known_model(s)
            if m is None and r != z3.unsat:
                self.lost = True
            if m is None:
                return None
            t_end = time.time() + 4
            for n in c.input_order:
                kind, t = c.inputs[n]
                if kind != "real" or time.time() > t_end:
                    continue
                v = core.model_value(m, t)
                if v is None:
                    continue
                if v.denominator in (1, 2, 4, 8, 16, 32, 64):
                    s.add(t == z3.RealVal(str(v)))
                    continue
                near = [Fraction(round(v * q), q) for q in (1, 8, 256)]
                # on either side: the value found may be the end of a range, where rounding decides
                near += [Fraction(w, q) for q in (256, 2**20) for w in (math.floor(v * q), math.ceil(v * q))]
                for w in dict.fromkeys(near):
                    s.push()
                    s.add(t == z3.RealVal(str(w)))
                    r = c._check(timeout=800)
                    if r == z3.sat:
                        m = s.model()
                        s.pop()
                        s.add(t == z3.RealVal(str(w)))
                        break
                    s.pop()
            return self._values(m)
        finally:
            s.pop()

    def check(self, cond, label):
        if isinstance(cond, np.ndarray):
            cond = and_(*arr.raw(cond).flat) if isinstance(cond, arr.TArr) else bool(cond.all())
        if self.ctx.replaying:
            return
        st = self.ctx.stats
        st.obligations += 1
        if not isinstance(cond, SymBool):
            if isinstance(cond, SymNum):
                cond = cond != 0
        if not isinstance(cond, SymBool):
            if bool(cond):
                st.discharged += 1
                st.trivial += 1
                return
            self.lost = False
            m = self.nice_model()
            if m is None:
                if self.lost:
                    more = self.some_values(2)
                    if more:
                        self.candidates.append(Candidate(label, more[-1], "condition is false"))
                    else:
                        self.inconclusive.append("%s: fails, but the solver has no inputs of the path" % label)
                raise PathEnd()
            self.candidates.append(Candidate(label, m, "condition is false"))
            raise PathEnd()
        neg = z3.Not(cond.e)
        model = self.ctx.model
        sure = model is not None and z3.is_true(model.eval(neg, model_completion=True))
        r = z3.sat if sure else self.ctx.feasible(neg)
        if r == z3.unsat:
            st.discharged += 1
            return
        if r == z3.sat:
            self._candidates(label, [neg])
        else:
            self._unknown(neg, label)
            self.inconclusive.append("%s: solver unknown" % label)
        self.ctx.assume(cond)

    def _pinned(self, cond, limit=6):
        """Look for a counterexample with all inputs but one (or an angle) fixed.

        Used where the solver has no answer on the whole path: the query is then
        about one variable, and what it finds is still checked on the real code.
        """
        t0 = time.time()
        if PINNED[0] > 25:
            return None
        try:
            return self._pinned_within(cond, t0 + limit)
        finally:
            PINNED[0] += time.time() - t0

    def _pinned_within(self, cond, end):
        c = self.ctx
        try:
            m = c.model if c.model is not None else c.get_model()
        except PathEnd:
            return None
        for k in range(3):
            if k:
                m = self._some_model(end, k)
            if m is None:
                continue
            if z3.is_true(m.eval(cond, model_completion=True)):
                return self._values(m)
            v = self._near(m, cond, end)
            if v is not None:
                return v
        return None

    def _near(self, m, cond, end):
        c = self.ctx
        groups = {}
        for n in c.input_order:
            kind, t = c.inputs[n]
            if kind == "real":
                g = n[:-2] if n.endswith((".c", ".s")) else n
                groups.setdefault(g, []).append(t)
        full = [(g, t, m.eval(t, model_completion=True)) for g, ts in groups.items() for t in ts]
        rest = [(t, m.eval(t, model_completion=True)) for k, t in c.inputs.values() if k != "real"]
        for free in groups:
            if time.time() > end:
                break
            c.solver.push()
            try:
                c.solver.add(cond)
                for g, t, v in full:
                    if g != free:
                        c.solver.add(t == v)
                for t, v in rest:
                    c.solver.add(t == v)
                r_ = c._check(timeout=1200);
                if r_ == z3.sat:
                    return self._values(c.solver.model())
            except z3.Z3Exception:
                pass
            finally:
                c.solver.pop()
        return None

    def _some_model(self, end, k):
        """A model of the path at values of the inputs chosen within their ranges."""
        c = self.ctx
        rnd = random.Random(len(c.trace) + 97 * k)
        for _ in range(8):
            if time.time() > end:
                return None
            c.solver.push()
            try:
                for n in c.input_order:
                    kind, t = c.inputs[n]
                    if n in self.ranges:
                        lo, hi = self.ranges[n]
                        c.solver.add(t == z3.RealVal(str(lo + (hi - lo) * Fraction(rnd.randint(1, 63), 64))))
                    elif kind == "real" and n.endswith(".c"):
                        k = Fraction(rnd.randint(-16, 16), 16)
                        c.solver.add(t == z3.RealVal(str((1 - k * k) / (1 + k * k))))
                r_ = c._check(timeout=600);
                if r_ == z3.sat:
                    return c.solver.model()
            except z3.Z3Exception:
                pass
            finally:
                c.solver.pop()
        return None

    def some_values(self, n):
        """Inputs on this path: of its model and of models at chosen values."""
        out, end = [], time.time() + 6
        if self.ctx.model is not None:
            out.append(self._values(self.ctx.model))
        for k in range(1, n):
            if PINNED[0] > 25:
                break
            t = time.time()
            m = self._some_model(end, k)
            PINNED[0] += time.time() - t
            if m is not None:
                out.append(self._values(m))
        return out

    def _unknown(self, cond, label):
        """True if a counterexample with pinned inputs was found instead."""
        v = self._pinned(cond)
        if v is None:
            return False
        self.candidates.append(Candidate(label, v, "solver model, other inputs fixed"))
        if len(self.candidates) > 6:
            raise PathEnd()
        return True

    def _candidates(self, label, negs):
        for neg in negs:
            v = self.nice_model(neg)
            if v is not None:
                self.candidates.append(Candidate(label, v, "solver model"))
                if len(self.candidates) > 6:
                    raise PathEnd()
            elif not self._unknown(neg, label):
                self.inconclusive.append("%s: the solver has no counterexample, and no proof" % label)

    def same(self, a, b):
        """Whether two numbers are equal for all inputs of this path (no check)."""
        p, q = core.lift(a), core.lift(b)
        if p is None or q is None or p is NotImplemented or q is NotImplemented:
            return False
        p, q = core._pair(p, q)
        cond = z3.simplify(p != q if p.sort() == z3.IntSort() else core.exceeds(p, q, api.TOL))
        if z3.is_false(cond):
            return True
        return self.ctx.feasible(cond) == z3.unsat

    def fail(self, label):
        self.check(False, label)

    def eq(self, a, b, label, tol=None, exact=False):
        if self.ctx.replaying:
            return
        try:
            x = a if isinstance(a, np.ndarray) else arr.tarr(a) if core.is_sym(a) or arr.has_sym(a) else np.asarray(arr.native(a) if isinstance(a, (list, tuple)) else a)
            y = b if isinstance(b, np.ndarray) else arr.tarr(b) if core.is_sym(b) or arr.has_sym(b) else np.asarray(arr.native(b) if isinstance(b, (list, tuple)) else b)
        except ValueError:
            return self.check(False, label)
        if x.shape != y.shape:
            return self.check(False, label)
        fx = arr.raw(x).flat if isinstance(x, arr.TArr) else x.flat
        fy = arr.raw(y).flat if isinstance(y, arr.TArr) else y.flat
        pairs = []
        bad = False
        for p, q in zip(fx, fy):
            if isinstance(p, Sym) or isinstance(q, Sym):
                pairs.append((p, q))
            elif isinstance(p, core.Dtd) or isinstance(q, core.Dtd):
                if isinstance(p, type(None)) or isinstance(q, type(None)):
                    bad = True
                    continue
                up, uq = self.us(p), self.us(q)
                if up is None or uq is None:
                    bad = True
                elif isinstance(up, Sym) or isinstance(uq, Sym):
                    pairs.append((up, uq))
                elif up != uq:
                    bad = True
            elif not api._same(p, q, tol):
                bad = True
        if bad:
            return self.check(False, label)
        if not pairs:
            st = self.ctx.stats
            st.obligations += 1
            st.discharged += 1
            st.trivial += 1
            return
        self._eqs(pairs, label, api.TOL if tol is None else 2 * tol, exact)

    def _eqs(self, pairs, label, tol, exact):
        c, st = self.ctx, self.ctx.stats
        st.obligations += 1
        neq, rest = [], []
        T = z3.RealVal(str(Fraction(tol)))
        for p, q in pairs:
            if isinstance(p, (SymBool, bool, np.bool_)) and isinstance(q, (SymBool, bool, np.bool_)):
                d = (p != q) if isinstance(p, SymBool) else (q != p)
                if isinstance(d, SymBool):
                    rest.append((d.e, None))
                elif d:
                    st.obligations -= 1
                    return self.check(False, label)
                continue
            ep, eq_ = core.lift(p), core.lift(q)
            if ep is None or eq_ is None or ep is NotImplemented or eq_ is NotImplemented:
                st.obligations -= 1
                return self.check(False, label)
            ep, eq_ = core._pair(ep, eq_)
            if ep.sort() == z3.IntSort():
                cond = z3.simplify(ep != eq_)
            else:
                if core.branching(ep) or core.branching(eq_):
                    if core.nonlinear(ep) or core.nonlinear(eq_):
                        c.get_model()
                        ep, eq_ = core.resolve(c, (ep, eq_))
                cond = z3.simplify(core.exceeds(ep, eq_, tol))
            if z3.is_false(cond):
                st.algebraic += 1
                continue
            if z3.is_true(cond):
                st.obligations -= 1
                return self.check(False, label)
            rest.append((cond, None))
        if not rest:
            st.discharged += 1
            return
        model = c.model
        viol = []
        open_ = []
        for cond, d in rest:
            if model is not None and z3.is_true(model.eval(cond, model_completion=True)):
                viol.append(cond)
            else:
                open_.append((cond, d))
        if viol:
            self._candidates(label, [z3.Or(*viol)])
            self.ctx.assume(SymBool(z3.Not(z3.Or(*viol))))
        left = open_
        if not left:
            if not viol:
                st.discharged += 1
            return
        r = c.feasible(z3.Or(*[cond for cond, _ in left]))
        if r == z3.unsat:
            if not viol:
                st.discharged += 1
            return
        if r == z3.sat:
            self._candidates(label, [z3.Or(*[cond for cond, _ in left])])
            self.ctx.assume(SymBool(z3.Not(z3.Or(*[cond for cond, _ in left]))))
            return
        # unknown: one by one
        unknown = found = 0
        for cond, d in left:
            r = c.feasible(cond)
            if r == z3.sat:
                found += 1
                self._candidates(label, [cond])
            elif r == z3.unknown:
                unknown += 1
                if unknown <= 3:
                    self._unknown(cond, label)
                if os.environ.get('SYMX_DUMP'): print('UNK', label, str(cond)[:3000]); print(c.path_str() if hasattr(c,'path_str') else '')
        if unknown:
            self.inconclusive.append("%s: solver unknown (%d terms)" % (label, unknown))
        elif not viol and not found:
            st.discharged += 1

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            if not self.ctx.replaying:
                self.ctx.stats.obligations += 1
                self.ctx.stats.discharged += 1
                self.ctx.stats.trivial += 1
            return
        except Exception:
            pass
        self.check(False, label)


# ------------------------------------------------------------------ patching

MODULES = [
    "glimpse.helpers", "glimpse.camera", "glimpse.raster", "glimpse.image",
    "glimpse.optimize", "glimpse.convert.converter", "glimpse.track.motion",
    "glimpse.track.observer", "glimpse.track.tracker", "glimpse.track.tracks",
    "glimpse.exif", "glimpse.svg",
    "glimpse.convert.cameras.agisoft", "glimpse.convert.cameras.matlab",
    "glimpse.convert.cameras.opencv", "glimpse.convert.cameras.photomodeler",
]


def patch_modules():
    """Replace numpy, math and datetime in every loaded glimpse module of this process."""
    shim = arr.np_shim()
    dt = times.DTModule()
    for name, m in list(sys.modules.items()):
        if name == "glimpse" or name.startswith("glimpse."):
            more.patch(m, shim, dt)
    return shim


class Tracer:
    """Names of the glimpse functions that ran."""

    def __init__(self, root):
        self.root = root
        self.seen = set()

    def __enter__(self):
        mon = sys.monitoring
        self.tool = 4
        try:
            mon.use_tool_id(self.tool, "symx")
        except ValueError:
            self.tool = None
            return self
        mon.register_callback(self.tool, mon.events.PY_START, self._start)
        mon.set_events(self.tool, mon.events.PY_START)
        return self

    def _start(self, code, offset):
        if code.co_filename.startswith(self.root):
            self.seen.add(
                code.co_filename[len(self.root):].lstrip("/") + ":" + code.co_qualname
            )
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        if self.tool is not None:
            sys.monitoring.set_events(self.tool, 0)
            sys.monitoring.free_tool_id(self.tool)


@contextlib.contextmanager
def patching(S, patches):
    """Environment stubs of a harness, undone afterwards."""
    undo = []

    def patch(obj, attr, value):
        undo.append((obj, attr, getattr(obj, attr, None), attr in vars(obj) if hasattr(obj, "__dict__") else True))
        setattr(obj, attr, value)

    S.patch = patch
    try:
        yield
    finally:
        for obj, attr, old, had in reversed(undo):
            if had:
                setattr(obj, attr, old)
            else:
                with contextlib.suppress(AttributeError):
                    delattr(obj, attr)


@contextlib.contextmanager
def alarm(seconds):
    """End a path that takes too long between two questions to the solver."""
    def ring(signum, frame):
        raise Budget()

    before = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, max(seconds, 1))
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, before)


def explore(fn, config, max_paths=4000, budget_s=60, timeout_ms=8000, max_witness=40,
            repo_root="/repo/src"):
    """Run a harness on every feasible path. Returns a result dict."""
    st = core.Stats()
    start = time.time()
    deadline = start + budget_s
    work = [[]]
    cands, incon, wits = [], [], []
    reached = set()
    complete = True
    funcs = set()
    notes = set()
    seen_labels = {}
    tracer = Tracer(repo_root)
    with tracer:
        while work:
            if st.paths >= max_paths or time.time() > deadline:
                complete = False
                incon.append("budget: %d paths left unexplored" % len(work))
                break
            if sum(seen_labels.values()) > 25:
                complete = False
                incon.append("stopped after many candidate violations")
                break
            prefix = work.pop()
            c = core.Ctx(prefix, st, timeout_ms=timeout_ms, deadline=deadline + 5)
            core.CTX = c
            S = Symbolic(c, config)
            st.paths += 1
            err = None
            try:
                with alarm(deadline + 8 - time.time()), patching(S, None):
                    fn(S)
            except PathEnd:
                err = "end"
            except Limit as e:
                err = "limit"
                incon.append("engine limit: %s" % e)
                complete = False
            except Budget:
                err = "budget"
                incon.append("budget")
                complete = False
                c.deadline = None
            except RecursionError:
                err = "limit"
                incon.append("recursion limit")
                complete = False
            except z3.Z3Exception as e:
                err = "limit"
                incon.append("solver error: %s" % e)
                complete = False
            except Exception as e:
                where, at = api.in_repo(e.__traceback__)
                err = "exception"
                label = "unexpected %s" % type(e).__name__
                S.lost = False
                try:
                    v = S.nice_model()
                except (PathEnd, Budget):
                    v = None
                if v is not None:
                    S.candidates.append(
                        Candidate(label, v, "%s at %s: %s" % (type(e).__name__, at, e))
                    )
                    S.last_exc = traceback.format_exc()
                elif S.lost:
                    incon.append("%s at %s, but the solver has no inputs of the path" % (label, at))
                # (a stand-in may refuse what the real library takes, and get wrong)
                for v in S.some_values(4)[1:]:
                    wits.append(dict(values=_json(v), limit=True))
            work.extend(c.new)
            reached |= set(S.reached)
            incon.extend(S.inconclusive)
            if c.incomplete:
                complete = False
                notes |= set(c.incomplete)
            for cand in S.candidates:
                k = seen_labels.get(cand.label, 0)
                if k < 6:
                    cands.append(
                        dict(label=cand.label, values=_json(cand.values), detail=cand.detail,
                             tb=getattr(S, "last_exc", None))
                    )
                seen_labels[cand.label] = k + 1
            if err == "budget" or S.inconclusive:
                # what the solver could not decide is at least tried at some inputs
                for v in S.some_values(3):
                    wits.append(dict(values=_json(v), limit=True))
                if err == "budget":
                    break
                continue
            # witness of this path (its inputs are re-run on the unpatched code)
            if err is None or err == "limit" or c.incomplete:
                if len(wits) < max_witness or err == "limit":
                    try:
                        v = S.nice_model()
                    except (PathEnd, Budget):
                        v = None
                    if v is not None:
                        wits.append(dict(values=_json(v), limit=err == "limit"))
    core.CTX = None
    return dict(
        stats=st.asdict(), candidates=cands, inconclusive=sorted(set(incon)),
        witnesses=wits, reached=sorted(reached), complete=complete,
        concretised=sorted(notes), functions=sorted(tracer.seen),
        wall_s=time.time() - start,
    )


def _json(values):
    return {k: (v if isinstance(v, (bool, int)) else str(v)) for k, v in values.items()}


def unjson(values):
    return {
        k: (v if isinstance(v, bool) else int(v) if isinstance(v, int) else Fraction(v))
        for k, v in values.items()
        if v is not None and v != "None"
    }


def run_concrete(fn, config, values):
    """Run a harness on the unpatched code. Returns a result dict."""
    S = api.Concrete(unjson(values), config)
    try:
        with patching(S, None):
            with np.errstate(all="ignore"):
                fn(S)
    except api.Skip:
        return dict(outcome="skip")
    except Exception as e:
        where, at = api.in_repo(e.__traceback__)
        msg = str(e)
        private = isinstance(e, (AttributeError, ImportError, NameError)) and where == "harness"
        if isinstance(e, AttributeError) and getattr(e, "obj", e) is None:
            private = False  # (a missing result rather than a missing name)
        if private and S.failures:
            # what failed before is what went wrong
            return dict(outcome="fail", failures=S.failures)
        return dict(
            outcome="error" if private else "exception",
            label="unexpected %s" % type(e).__name__, detail="%s at %s" % (msg, at),
            failures=S.failures,
        )
    if S.failures:
        return dict(outcome="fail", failures=S.failures)
    return dict(outcome="ok", checks=S.nchecks, reached=S.reached)
