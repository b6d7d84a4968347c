"""The interface between a harness and the two ways of running it.

A harness is a Python function harness(S, case).  It runs
  * symbolically (SymSession): ghedt is loaded by symx.shims, S.real() makes a
    solver variable, S.prove() is a solver query over the whole path;
  * concretely (ConcreteSession): the unmodified ghedt is imported, S.real()
    looks the value up in a solver model, S.prove() is a plain assertion.
The second mode replays counterexamples and validates the translation.
"""
import functools
import inspect
import math
import random
import sys
import types
from fractions import Fraction

import numpy as np
import z3

from . import engine as E
from .engine import SymReal, SymBool, is_sym, term, rat


class AssumptionFailed(BaseException):
    pass


# polymorphic helpers for harness code ------------------------------------
def smax(*v):
    v = list(v[0]) if len(v) == 1 else list(v)
    return E.sym_max(v)


def smin(*v):
    v = list(v[0]) if len(v) == 1 else list(v)
    return E.sym_min(v)


def sabs(x):
    return abs(x)


def slog(x):
    return E.sym_log(x, True) if is_sym(x) else math.log(x)


def ssqrt(x):
    return E.sym_sqrt(x, True) if is_sym(x) else math.sqrt(x)


def sand(*v):
    v = list(v[0]) if len(v) == 1 and isinstance(v[0], (list, tuple)) \
        else list(v)
    if any(is_sym(e) for e in v):
        return SymBool(z3.And(*[E.bterm(e) for e in v]))
    return all(bool(e) for e in v)


def sor(*v):
    v = list(v[0]) if len(v) == 1 and isinstance(v[0], (list, tuple)) \
        else list(v)
    if any(is_sym(e) for e in v):
        return SymBool(z3.Or(*[E.bterm(e) for e in v]))
    return any(bool(e) for e in v)


def snot(c):
    return ~c if isinstance(c, SymBool) else not c


def simplies(a, b):
    return sor(snot(a), b)


def scalar(v):
    """0-d arrays and numpy scalars -> plain number."""
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return v.item()
    if isinstance(v, np.generic):
        return v.item()
    return v


def _by_position(old, val, method):
    """A stand-in that may be called with the names of the original."""
    static = isinstance(val, staticmethod)
    f = val.__func__ if static else val
    if not isinstance(f, types.FunctionType) or not callable(old) or \
            isinstance(old, type):
        return val
    try:
        sig = inspect.signature(old)
    except (TypeError, ValueError):
        return val

    @functools.wraps(f)
    def g(*a, **k):
        if k:
            try:
                b = sig.bind(*a, **k)
                a, k = b.args, b.kwargs
            except TypeError:
                pass
        return f(*a, **k)
    return staticmethod(g) if static else g


class Base:
    def __init__(self):
        self._patches = []
        self.obs = []
        self.reached = {}
        self.notes = []

    def patch(self, obj, attr, val):
        """Put a stand-in in place, wherever ghedt holds the original."""
        old = getattr(obj, attr, None)
        val = _by_position(old, val, isinstance(obj, type))
        self._set(obj, attr, val)
        if old is None or not isinstance(obj, types.ModuleType) or not \
                isinstance(old, (types.FunctionType, type)):
            return
        for name, m in list(sys.modules.items()):
            if m is None or name.split('.')[0] != 'ghedt':
                continue
            for n, v in list(vars(m).items()):
                if v is old and not (m is obj and n == attr):
                    self._set(m, n, val)

    def _set(self, obj, attr, val):
        had = attr in getattr(obj, '__dict__', {attr: 1})
        self._patches.append((obj, attr, getattr(obj, attr, None), had))
        setattr(obj, attr, val)

    def unpatch(self, keep=0):
        for obj, attr, old, had in reversed(self._patches[keep:]):
            if had:
                setattr(obj, attr, old)
            else:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
        self._patches = self._patches[:keep]

    def hook(self, name, f):
        """Install a stand-in for a pygfunction model in both modes."""
        raise NotImplementedError

    def reals(self, name, n, lo, hi):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def observe(self, name, v):
        self.obs.append((name, v))

    def parse(self, text):
        """The number a program printed."""
        v = E.untoken(text)
        return float(text) if v is None else v

    def eq(self, label, a, b, tol=1e-9, scale=None):
        a, b = scalar(a), scalar(b)
        d = abs(a - b)
        if scale is None:
            m = abs(b) if is_sym(b) or is_sym(a) else abs(b)
            lim = (m + 1) * tol
        else:
            lim = tol * scale
        self.prove(label, d <= lim, (a, b))

    def le(self, label, a, b, tol=1e-9):
        self.prove(label, a <= b + tol, (a, b))

    def fail(self, label, detail=''):
        self.prove(label, False, detail)


class SymSession(Base):
    sym = True

    def __init__(self, ctx, limits):
        Base.__init__(self)
        self.ctx = ctx
        self.inputs = {}        # name -> z3 const
        self.kinds = {}
        self.fns = {}           # name -> [(arg terms, value const)]
        self.curves = {}
        self.cands = []
        self.limits = limits

    # inputs
    def real(self, name, lo=None, hi=None):
        c = z3.Real(name)
        assert name not in self.inputs, name
        self.inputs[name] = c
        if lo is not None:
            self.ctx.add(c >= term(lo))
        if hi is not None:
            self.ctx.add(c <= term(hi))
        return SymReal(c)

    def int(self, name, lo, hi):
        """Forks over the integers of a stated range."""
        c = z3.Int(name)
        self.inputs[name] = c
        self.ctx.add(z3.And(c >= lo, c <= hi))
        return self.ctx.concretize(c)

    def sint(self, name, lo, hi):
        """A whole number that stays symbolic."""
        c = z3.Int(name)
        self.inputs[name] = c
        self.ctx.add(z3.And(c >= lo, c <= hi))
        return SymReal(z3.ToReal(c))

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def bool(self, name):
        c = z3.Bool(name)
        self.inputs[name] = c
        return SymBool(c)

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.ctx.add(cond.t)
            if not self.ctx.sat():
                raise E.PathInfeasible()
        elif not cond:
            raise E.PathInfeasible()

    def fn(self, name, args=(), lo=None, hi=None, strict_lo=None):
        """An arbitrary function: equal arguments give equal results."""
        apps = self.fns.setdefault(name, [])
        ts = [z3.simplify(term(a)) for a in args]
        for ts2, v in apps:
            if len(ts2) == len(ts) and all(
                    a.eq(b) for a, b in zip(ts, ts2)):
                return SymReal(v)
        v = z3.Real('%s#%d' % (name, len(apps)))
        self.inputs['%s#%d' % (name, len(apps))] = v
        if lo is not None:
            self.ctx.add(v >= term(lo))
        if strict_lo is not None:
            self.ctx.add(v > term(strict_lo))
        if hi is not None:
            self.ctx.add(v <= term(hi))
        for ts2, v2 in apps:
            if len(ts2) == len(ts) and ts:
                same = z3.simplify(z3.And(*[a == b for a, b in zip(ts, ts2)]))
                if not z3.is_false(same):
                    self.ctx.add(z3.Implies(same, v == v2))
        apps.append((ts, v))
        return SymReal(v)

    def curve(self, name, x, lo=None, hi=None, mono=None):
        """An arbitrary real function of one argument (optionally strictly
        decreasing 'dec' / increasing 'inc')."""
        apps = self.curves.setdefault(name, [])
        tx = z3.simplify(term(x))
        for tx2, v in apps:
            if tx.eq(tx2):
                return SymReal(v)
        v = z3.Real('%s@%d' % (name, len(apps)))
        if lo is not None:
            self.ctx.add(v >= term(lo))
        if hi is not None:
            self.ctx.add(v <= term(hi))
        for tx2, v2 in apps:
            if mono == 'dec':
                self.ctx.add(z3.And((tx < tx2) == (v > v2),
                                    (tx == tx2) == (v == v2)))
            elif mono == 'inc':
                self.ctx.add(z3.And((tx < tx2) == (v < v2),
                                    (tx == tx2) == (v == v2)))
            else:
                self.ctx.add(z3.Implies(tx == tx2, v == v2))
        apps.append((tx, v))
        return SymReal(v)

    def hook(self, name, f):
        from . import gtstub
        old = gtstub.HOOKS.get(name)
        gtstub.HOOKS[name] = f
        self._patches.append((_HookUndo(gtstub.HOOKS, name), 'v', old, True))

    def slow_roots(self, iterations):
        """Root finding may need that many iterations."""
        from . import shims
        old = shims.SLOW['iterations']
        shims.SLOW['iterations'] = iterations
        self._patches.append((_HookUndo(shims.SLOW, 'iterations'), 'v', old,
                              True))

    # obligations
    def prove(self, label, cond, detail=''):
        st = self.ctx.stats
        st.obligations += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        if isinstance(cond, SymReal):
            cond = cond != 0
        if not isinstance(cond, SymBool):
            if bool(cond):
                st.discharged += 1
                return
            if self.ctx.sat():
                self._cand(label, self.ctx.last_model, detail, ())
            raise E.PathInfeasible()
        t = z3.simplify(cond.t)
        if z3.is_true(t):
            st.discharged += 1
            return
        if self.ctx.sat(z3.Not(t)):
            self._cand(label, self.ctx.last_model, detail, (z3.Not(t),))
            self.ctx.add(t)
            if not self.ctx.sat():
                raise E.PathInfeasible()
            return
        st.discharged += 1

    def _cand(self, label, model, detail, neg=None):
        c = {'label': label, 'model': self.assignment(model),
             'detail': _show(detail, model), 'alts': []}
        if neg is not None and len(self.cands) < 6:
            c['alts'] = [self.assignment(m) for m in self._inner(neg)]
        self.cands.append(c)

    def _inner(self, neg):
        """Further counterexamples, away from the limits of the path and the
        obligation: the rounding of a replay does not undo them."""
        ctx = self.ctx
        out = []
        for eps, part in ((1e-3, neg), (1e-6, neg), (1e-6, ())):
            try:
                s = z3.Solver()
                s.set('timeout', 3000)
                s.add(*ctx.asserted)
                s.add(*neg)
                s.add(*[_tighten(t, eps) for t in
                        list(ctx.asserted) + list(part)])
                r = s.check()
                ctx.stats.queries += 1
                if r == z3.sat:
                    out.append(E.Model(s.model(), ctx.defs, set(ctx.active)))
                    if part:
                        break
            except z3.Z3Exception:
                pass
        return out

    def assignment(self, model):
        d = {}
        for n, c in self.inputs.items():
            v = model.eval(c, model_completion=True)
            if z3.is_true(v) or z3.is_false(v):
                d[n] = bool(z3.is_true(v))
            else:
                d[n] = str(E.to_fraction(v))
        cv = {}
        for n, apps in self.curves.items():
            pts = []
            for tx, v in apps:
                pts.append([str(E.to_fraction(model.eval(
                    t, model_completion=True))) for t in (tx, v)])
            cv[n] = pts
        return {'inputs': d, 'curves': cv}

    def obs_values(self, model):
        out = []
        for n, v in self.obs:
            v = scalar(v)
            if isinstance(v, SymReal):
                try:
                    v = float(E.to_fraction(
                        model.eval(v.t, model_completion=True)))
                except E.SymError:
                    v = None
            elif isinstance(v, SymBool):
                v = bool(z3.is_true(model.eval(v.t, model_completion=True)))
            elif isinstance(v, (int, float, str)) or v is None:
                pass
            else:
                v = str(v)
            out.append((n, v))
        return out


class _HookUndo:
    def __init__(self, d, k):
        object.__setattr__(self, 'd', d)
        object.__setattr__(self, 'k', k)

    def __setattr__(self, _n, old):
        if old is None:
            self.d.pop(self.k, None)
        else:
            self.d[self.k] = old


def _tighten(t, eps):
    """The inequalities of a conjunction, with a margin."""
    t = z3.simplify(t)
    e = E.rat(eps)
    neg = z3.is_not(t)
    a = t.arg(0) if neg else t
    if z3.is_and(a) and not neg:
        return z3.And([_tighten(c, eps) for c in a.children()])
    if z3.is_or(a) and neg:
        return z3.And([_tighten(z3.Not(c), eps) for c in a.children()])
    if z3.is_not(a):
        return _tighten(a.arg(0), eps)
    if (z3.is_le(a) or z3.is_ge(a)) and a.arg(0).is_real():
        up = z3.is_le(a) != neg
        return a.arg(0) + e <= a.arg(1) if up else a.arg(0) >= a.arg(1) + e
    return t


def _show(detail, model):
    def f(v):
        v = scalar(v)
        if isinstance(v, SymReal):
            try:
                return '%.12g' % float(E.to_fraction(
                    model.eval(v.t, model_completion=True)))
            except E.SymError:
                return str(v.t)
        if isinstance(v, SymBool):
            return str(model.eval(v.t, model_completion=True))
        return str(v)
    if isinstance(detail, (tuple, list)):
        return [f(v) for v in detail][:12]
    return f(detail)


class ConcreteSession(Base):
    sym = False

    def __init__(self, model, rng=None, jitter=0.):
        Base.__init__(self)
        self.model = model['inputs']
        self.curve_pts = model.get('curves', {})
        self.rng = rng
        self.jitter = jitter
        self.violations = []
        self.fn_calls = {}
        self.used = {}

    def _value(self, name, lo=None, hi=None):
        v = self.model.get(name)
        if v is None:
            if lo is None or hi is None:
                v = 1.0 if lo is None else float(lo)
            else:
                v = (float(lo) + float(hi)) / 2
            if self.rng is not None and lo is not None and hi is not None:
                v = self.rng.uniform(float(lo), float(hi))
        elif not isinstance(v, bool):
            f = Fraction(v)
            v = float(f)
        if self.rng is not None and not isinstance(v, bool) and self.jitter:
            r = self.rng.random()
            if r < 0.7:
                w = self.jitter * (abs(v) if v else 1.0)
                v = v + self.rng.uniform(-w, w)
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None):
        return self._value(name, scalar(lo), scalar(hi))

    def int(self, name, lo, hi):
        v = self.model.get(name)
        v = lo if v is None else int(Fraction(v))
        self.used[name] = v
        return min(max(v, lo), hi)

    sint = int

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def bool(self, name):
        v = bool(self.model.get(name, False))
        self.used[name] = v
        return v

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def fn(self, name, args=(), lo=None, hi=None, strict_lo=None):
        calls = self.fn_calls.setdefault(name, [])
        args = [float(a) for a in args]
        for a2, v in calls:
            if len(a2) == len(args) and all(
                    abs(x - y) <= 1e-12 * (1 + abs(y))
                    for x, y in zip(args, a2)):
                return v
        if strict_lo is not None and lo is None:
            lo = strict_lo
        v = self._value('%s#%d' % (name, len(calls)), scalar(lo), scalar(hi))
        calls.append((args, v))
        return v

    def curve(self, name, x, lo=None, hi=None, mono=None):
        pts = sorted((float(Fraction(a)), float(Fraction(b)))
                     for a, b in self.curve_pts.get(name, []))
        x = float(x)
        if not pts:
            v = 0.0
        elif len(pts) == 1 or x <= pts[0][0] or x >= pts[-1][0]:
            near = pts[0] if x <= pts[0][0] else pts[-1]
            v = near[1]
            if mono and x != near[0]:
                s = 1e-3 * (x - near[0])
                v += s if mono == 'inc' else -s
        else:
            for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
                if x0 <= x <= x1:
                    if x == x0 or x1 == x0:
                        v = y0
                    elif x == x1:
                        v = y1
                    else:
                        v = y0 + (y1 - y0) * (x - x0) / (x1 - x0)
                    break
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return v

    def slow_roots(self, iterations):
        pass

    def hook(self, name, f):
        import pygfunction as gt
        tgt = {
            'h_circular': (gt.pipes, 'convective_heat_transfer_coefficient_'
                           'circular_pipe'),
            'h_annulus': (gt.pipes, 'convective_heat_transfer_coefficient_'
                          'concentric_annulus'),
            'gFunction': (gt.gfunction, 'gFunction'),
            'Network': (gt.networks, 'Network'),
            'segment_ratios': (gt.utilities, 'segment_ratios'),
        }
        if name == 'effective_borehole_thermal_resistance':
            def m(self_, m_flow_borehole, cp_f):
                return f(self_, m_flow_borehole, cp_f)
            for c in (gt.pipes._BasePipe, gt.pipes.SingleUTube,
                      gt.pipes.MultipleUTube, gt.pipes.Coaxial):
                self.patch(c, name, m)
            return
        if name == 'figure':
            for m in (gt.utilities, gt.gfunction):
                self.patch(m, '_initialize_figure', f)
            return
        obj, attr = tgt[name]
        self.patch(obj, attr, f)

    def prove(self, label, cond, detail=''):
        self.reached[label] = self.reached.get(label, 0) + 1
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if cond != cond:
            cond = False
        if not bool(cond):
            self.violations.append((label, [str(x) for x in detail]
                                    if isinstance(detail, (tuple, list))
                                    else str(detail)))
