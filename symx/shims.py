"""Loads the ghedt package from the repository for symbolic execution.

Each module of /repo/ghedt is compiled from its current source, unchanged, and
executed with a replaced builtins table and with symbolic-aware stand-ins for
the numeric libraries it imports.  Nothing in the source is rewritten.
"""
import builtins
import collections.abc
import copy
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import sys
import types

from fractions import Fraction

import numpy as np
import scipy
import scipy.interpolate
import scipy.linalg.lapack
import scipy.optimize
import z3

from . import engine as E
from .engine import SymReal, SymBool, SymError, NotANumber, is_sym, term

REPO = os.environ.get('VERIF_REPO', '/repo')


# ---------------------------------------------------------------- helpers
PLAIN = {float, int, bool, str, type(None), np.float64, np.int64, np.bool_}


def has_sym(v, depth=0):
    if is_sym(v):
        return True
    if isinstance(v, np.ndarray):
        if v.dtype != object:
            return False
        v = v.ravel().tolist()
        return not set(map(type, v)) <= PLAIN and any(has_sym(e) for e in v)
    if isinstance(v, (list, tuple)) and depth < 6:
        if len(v) > 8 and set(map(type, v)) <= PLAIN:
            return False
        return any(has_sym(e, depth + 1) for e in v)
    if isinstance(v, dict) and depth < 6:
        return any(has_sym(e, depth + 1) for e in v.values())
    if isinstance(v, LazySorted):
        return has_sym(v._list(), depth)
    return False


def deobj(v):
    """Object array without symbolic members -> float array."""
    if isinstance(v, np.ndarray) and v.dtype == object and not has_sym(v):
        try:
            return v.astype(float)
        except (TypeError, ValueError):
            return v
    if isinstance(v, list):
        return [deobj(e) for e in v]
    if isinstance(v, tuple):
        return tuple(deobj(e) for e in v)
    return v


class PyFloat(float):
    """A plain element of a symbolic array: acts like numpy.float64."""
    ndim = 0
    size = 1
    shape = ()
    dtype = np.dtype(float)

    def tolist(self):
        return float(self)

    item = tolist

    def astype(self, t):
        return np.float64(self).astype(t)

    def copy(self):
        return self


PLAIN.add(PyFloat)


class SArr(np.ndarray):
    """Object array of symbolic numbers."""

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        ins = [np.asarray(i) if isinstance(i, np.ndarray) else i
               for i in inputs]
        if out is not None:
            kw['out'] = tuple(np.asarray(o) if isinstance(o, np.ndarray) else o
                              for o in out)
            if method == '__call__':
                o = kw.pop('out')[0]
                r = _ufunc(uf, ins, {k: v for k, v in kw.items()
                                     if k not in ('casting', 'dtype')})
                o[...] = r
                return out[0]
        if method == '__call__':
            r = _ufunc(uf, ins, {k: v for k, v in kw.items()
                                 if k not in ('casting', 'dtype')})
        elif method == 'reduce' and uf in (np.maximum, np.minimum):
            axis = kw.get('axis')
            a = np.asarray(ins[0])
            if axis is None or a.ndim == 1:
                f = E.sym_max if uf is np.maximum else E.sym_min
                return f(list(a.ravel()))
            return wrap(np.apply_along_axis(
                lambda row: (E.sym_max if uf is np.maximum else E.sym_min)(
                    list(row)), axis, a))
        else:
            r = getattr(uf, method)(*ins, **kw)
        return wrap(r)

    def astype(self, dtype, *a, **k):
        if dtype in (int, IntShim, np.int64, np.int32, np.uint64) or \
                (isinstance(dtype, str) and dtype.startswith(('int', 'uint'))):
            return _map(E.trunc_int, self) if has_sym(self) \
                else np.asarray(self).astype(np.int64)
        return self.copy() if has_sym(self) else \
            np.asarray(self).astype(_dtype(dtype))

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return np.asarray(self).tolist()

    def __getitem__(self, i):
        i = _index(i)
        r = np.asarray(self)[i]
        if type(r) in (float, np.float64):
            return PyFloat(r)
        return r.view(SArr) if isinstance(r, np.ndarray) and \
            r.dtype == object and np.may_share_memory(r, self) else wrap(r)

    def __setitem__(self, i, v):
        np.asarray(self)[_index(i)] = v

    def dot(self, o, *a):
        return wrap(np.asarray(self).dot(np.asarray(o)))

    def sum(self, *a, **k):
        return wrap(np.asarray(self).sum(*a, **k))

    def mean(self, *a, **k):
        return self.sum() / self.size

    def max(self, *a, **k):
        return _np_max(self, *a, **k)

    def min(self, *a, **k):
        return _np_min(self, *a, **k)

    def argmax(self, *a, **k):
        return _np_arg(self, True)

    def argmin(self, *a, **k):
        return _np_arg(self, False)

    def clip(self, lo=None, hi=None, **k):
        return _np_clip(self, lo, hi)

    def cumsum(self, *a, **k):
        return wrap(np.asarray(self).cumsum(*a, **k))

    def round(self, decimals=0, out=None):
        return _map(lambda e: E.sym_round(e, decimals), self)


def _index(i):
    if isinstance(i, SymReal):
        return i.__index__()
    if isinstance(i, tuple):
        return tuple(_index(e) for e in i)
    if isinstance(i, SArr) and i.size and all(
            isinstance(e, (SymBool, bool, np.bool_)) for e in i.ravel()):
        return np.array([bool(e) for e in i.ravel()]).reshape(i.shape)
    return i


def wrap(r):
    if isinstance(r, tuple):
        return tuple(wrap(e) for e in r)
    if isinstance(r, list):
        return [wrap(e) for e in r]
    if isinstance(r, np.ndarray) and r.dtype == object and \
            not isinstance(r, SArr):
        if r.ndim == 0:
            return r.item()
        return r.view(SArr)
    return r


def _map(f, a):
    a = np.asarray(a)
    if a.ndim == 0:
        return f(a.item())
    out = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(a.shape):
        e = a[idx]
        if isinstance(e, np.generic):
            e = e.item()
        out[idx] = f(e)
    return out.view(SArr)


def _np_floor(e):
    if is_sym(e):
        e = e if isinstance(e, SymReal) else E.SymReal(term(e), True)
        return e if e.isint else e.floor()
    return float(np.floor(e))


def _np_ceil(e):
    if is_sym(e):
        e = e if isinstance(e, SymReal) else E.SymReal(term(e), True)
        return e if e.isint else e.ceil()
    return float(np.ceil(e))


def _scalar(f, npf):
    def g(e):
        if is_sym(e):
            return f(e)
        return npf(e)
    return g


def _trunc(e):
    if not is_sym(e):
        return np.trunc(e)
    r = E.trunc_int(e)
    return r if is_sym(r) else np.float64(r)


def _isclose1(a, b, rtol=1e-5, atol=1e-8):
    if is_sym(a) or is_sym(b):
        d = abs(a - b)
        if not is_sym(d):
            return bool(d <= atol + rtol * abs(b))
        return d <= (abs(b) * rtol + atol)
    return bool(np.isclose(a, b, rtol=rtol, atol=atol))


def _sign(e):
    if not is_sym(e):
        return np.sign(e)
    return SymReal(z3.If(e.t > 0, z3.RealVal(1),
                         z3.If(e.t < 0, z3.RealVal(-1), z3.RealVal(0))), True)


def _ite(c, a, b):
    if isinstance(c, SymBool):
        if not (is_sym(a) or E.is_num(a)) or not (is_sym(b) or E.is_num(b)):
            return a if c else b
        return SymReal(z3.If(c.t, term(a), term(b)),
                       E._isint(a) and E._isint(b))
    if isinstance(c, SymReal):
        return _ite(c != 0, a, b)
    return a if c else b


UNARY = {
    'log': _scalar(lambda e: E.sym_log(e, True), np.log),
    'exp': _scalar(E.sym_exp, np.exp),
    'sqrt': _scalar(lambda e: E.sym_sqrt(e, True), np.sqrt),
    'floor': lambda e: np.float64(r) if not is_sym(r := _np_floor(e)) else r,
    'ceil': lambda e: np.float64(r) if not is_sym(r := _np_ceil(e)) else r,
    'rint': lambda e: np.float64(r) if not is_sym(r := E.sym_round(e, 0)) else r,
    'trunc': _trunc,
    'fix': _trunc,
    'abs': lambda e: abs(e),
    'absolute': lambda e: abs(e),
    'fabs': lambda e: abs(e),
    'square': lambda e: e * e,
    'negative': lambda e: -e,
    'cos': _scalar(lambda e: E.sym_trig('cos', e), np.cos),
    'sin': _scalar(lambda e: E.sym_trig('sin', e), np.sin),
    'sign': _sign,
    'isnan': lambda e: False if is_sym(e) else bool(np.isnan(e)),
    'isinf': lambda e: False if is_sym(e) else bool(np.isinf(e)),
    'isfinite': lambda e: True if is_sym(e) else bool(np.isfinite(e)),
    'logical_not': lambda e: (~e if isinstance(e, SymBool) else (not e)),
    'log10': _scalar(lambda e: E.sym_log(e, True) / math.log(10), np.log10),
    'reciprocal': lambda e: E.sym_div(1., e) if is_sym(e) else 1. / e,
}
BINARY = {
    'maximum': lambda a, b: E.sym_max([a, b]),
    'minimum': lambda a, b: E.sym_min([a, b]),
    'fmax': lambda a, b: E.sym_max([a, b]),
    'fmin': lambda a, b: E.sym_min([a, b]),
    'less': lambda a, b: a < b,
    'less_equal': lambda a, b: a <= b,
    'greater': lambda a, b: a > b,
    'greater_equal': lambda a, b: a >= b,
    'equal': lambda a, b: a == b,
    'not_equal': lambda a, b: a != b,
    'add': lambda a, b: a + b,
    'subtract': lambda a, b: a - b,
    'multiply': lambda a, b: a * b,
    'divide': lambda a, b: _npdiv(a, b),
    'true_divide': lambda a, b: _npdiv(a, b),
    'floor_divide': lambda a, b: a // b,
    'power': lambda a, b: a ** b,
    'logical_and': lambda a, b: SymBool(z3.And(E.bterm(a), E.bterm(b))),
    'logical_or': lambda a, b: SymBool(z3.Or(E.bterm(a), E.bterm(b))),
    'bitwise_and': lambda a, b: a & b,
    'bitwise_or': lambda a, b: a | b,
    'hypot': lambda a, b: E.sym_sqrt(a * a + b * b, True),
    'mod': lambda a, b: a % b,
    'remainder': lambda a, b: a % b,
}


def _npdiv(a, b):
    """numpy division: x/0 is inf or nan, not an exception."""
    if is_sym(a) or is_sym(b):
        try:
            return E.sym_div(a, b)
        except ZeroDivisionError:
            raise NotANumber('division by zero in numpy')
    if b == 0:
        return np.float64(a) / np.float64(b)
    return a / b


def _ufunc(uf, ins, kw):
    name = uf.__name__
    ins = [i.item() if isinstance(i, np.ndarray) and i.ndim == 0 else i
           for i in ins]
    if not any(has_sym(i) for i in ins):
        ins = [deobj(i) if isinstance(i, np.ndarray) else i for i in ins]
        return uf(*ins, **kw)
    if kw.get('where', True) is not True:
        raise SymError('numpy.%s with where= is not modelled' % name)
    if name in ('matmul', 'vecdot') and len(ins) == 2:
        return np.dot(_objarr(ins[0]), _objarr(ins[1]))
    if name in UNARY and len(ins) == 1:
        return _map(UNARY[name], ins[0])
    if name in BINARY and len(ins) == 2:
        f = BINARY[name]
        a, b = ins
        if not isinstance(a, (np.ndarray, list, tuple)) and \
                not isinstance(b, (np.ndarray, list, tuple)):
            return f(a, b)
        aa, bb = np.broadcast_arrays(_objarr(a), _objarr(b))
        out = np.empty(aa.shape, dtype=object)
        for idx in np.ndindex(aa.shape):
            out[idx] = f(aa[idx], bb[idx])
        return out
    raise SymError('numpy.%s of symbolic values is not modelled' % name)


def _objarr(v):
    if isinstance(v, np.ndarray):
        return np.asarray(v)
    if isinstance(v, (list, tuple)):
        return _array(v)
    r = np.empty((), dtype=object)
    r[()] = v
    return r


def _dtype(d):
    if isinstance(d, type) and isinstance(d, NumMeta):
        return d._real
    return d


def _shape(v):
    if isinstance(v, np.ndarray):
        return v.shape
    if isinstance(v, (list, tuple)):
        if len(v) == 0:
            return (0,)
        return (len(v),) + _shape(v[0])
    return ()


def _array(v, dtype=None, copy=True, **k):
    d = _dtype(dtype)
    if not has_sym(v):
        v = deobj(v)
        r = np.array(v, dtype=d, **k) if d is not None else np.array(v, **k)
        return r
    if isinstance(v, np.ndarray):
        r = np.array(v, dtype=object)
    else:
        if is_sym(v):
            return v
        sh = _shape(v)
        r = np.empty(sh, dtype=object)

        def fill(idx, e):
            if len(idx) == len(sh):
                r[idx] = e.item() if isinstance(e, np.generic) else e
                return
            for i in range(sh[len(idx)]):
                fill(idx + (i,), e[i])
        fill((), v)
    r = r.view(SArr)
    if d is not None and np.dtype(d).kind in 'iu':
        return _map(E.trunc_int, r)
    return r


def _filled(fn):
    def f(shape, *a, **k):
        dt = k.get('dtype', None)
        if fn is np.full:
            val = a[0] if a else k['fill_value']
            dt = k.get('dtype', a[1] if len(a) > 1 else None)
        elif a:
            dt = a[0]
        if isinstance(shape, SymReal):
            shape = shape.__index__()
        if isinstance(shape, (tuple, list)):
            shape = tuple(int(s.__index__()) if isinstance(s, SymReal) else s
                          for s in shape)
        d = _dtype(dt)
        if d is not None and np.dtype(d).kind in 'iub':
            return fn(shape, *((val,) if fn is np.full else ()), dtype=d)
        r = np.empty(shape, dtype=object)
        r[...] = (0. if fn in (np.zeros, np.empty) else 1.) \
            if fn is not np.full else val
        return wrap(r) if r.ndim else r.view(SArr)
    return f


def _np_arg(v, mx):
    v = list(np.asarray(v).ravel()) if isinstance(v, np.ndarray) else list(v)
    best = 0
    for i in range(1, len(v)):
        if (v[i] > v[best]) if mx else (v[i] < v[best]):
            best = i
    return best


def _np_max(v, axis=None, **k):
    a = _array(v)
    if axis is None:
        return E.sym_max(list(np.asarray(a).ravel()))
    return wrap(np.apply_along_axis(lambda r: E.sym_max(list(r)), axis,
                                    np.asarray(a)))


def _np_min(v, axis=None, **k):
    a = _array(v)
    if axis is None:
        return E.sym_min(list(np.asarray(a).ravel()))
    return wrap(np.apply_along_axis(lambda r: E.sym_min(list(r)), axis,
                                    np.asarray(a)))


def _np_clip(v, lo=None, hi=None, *a, **k):
    def f(e):
        if lo is not None:
            e = E.sym_max([e, lo])
        if hi is not None:
            e = E.sym_min([e, hi])
        return e
    return _map(f, _objarr(v))


def _np_where(c, *ab):
    if not ab:
        idx = [i for i, e in enumerate(np.asarray(c).ravel()) if e]
        return (np.array(idx, dtype=int),)
    cc, a, b = np.broadcast_arrays(_objarr(c), _objarr(ab[0]), _objarr(ab[1]))
    out = np.empty(cc.shape, dtype=object)
    for idx in np.ndindex(cc.shape):
        out[idx] = _ite(cc[idx], a[idx], b[idx])
    return wrap(out)


def _np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(_objarr(a), _objarr(b))
    if a.ndim == 0:
        return _isclose1(a.item(), b.item(), rtol, atol)
    out = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(a.shape):
        out[idx] = _isclose1(a[idx], b[idx], rtol, atol)
    return wrap(out)


def _np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _np_isclose(a, b, rtol, atol)
    return _all(list(r.ravel()) if isinstance(r, np.ndarray) else [r])


def _all(v, *a, **k):
    v = list(np.asarray(v).ravel()) if isinstance(v, np.ndarray) else list(v)
    return SymBool(z3.And(*[E.bterm(e) for e in v])) if v else True


def _any(v, *a, **k):
    v = list(np.asarray(v).ravel()) if isinstance(v, np.ndarray) else list(v)
    return SymBool(z3.Or(*[E.bterm(e) for e in v])) if v else False


def _np_round(v, decimals=0, **k):
    return _map(lambda e: E.sym_round(e, decimals), _objarr(v))


def _np_sort(v, *a, **k):
    return _array(sorted(list(np.asarray(v).ravel() if isinstance(
        v, np.ndarray) else v)))


def _np_interp(x, xp, fp, left=None, right=None, period=None):
    xp = list(np.asarray(xp).ravel()) if isinstance(xp, np.ndarray) else list(xp)
    fp = list(np.asarray(fp).ravel()) if isinstance(fp, np.ndarray) else list(fp)

    def one(v):
        if v < xp[0]:
            return fp[0] if left is None else left
        if v > xp[-1]:
            return fp[-1] if right is None else right
        return Interp1d(xp, fp)(v)
    return _map(one, _objarr(x))


def _np_searchsorted(a, v, side='left', sorter=None):
    a = list(np.asarray(a).ravel()) if isinstance(a, np.ndarray) else list(a)

    def one(v):
        n = 0
        for e in a:
            if (e < v) if side == 'left' else (e <= v):
                n += 1
            else:
                break
        return n
    if isinstance(v, (list, np.ndarray)):
        return np.array([one(e) for e in v])
    return one(v)


def _np_unique(v, *a, **k):
    raise SymError('numpy.unique of symbolic values')


def _np_arange(*a, **k):
    a = [(x.__index__() if x.isint else x) if isinstance(x, SymReal) else x
         for x in a]
    if has_sym(a):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else \
            (a[0], a[1], a[2] if len(a) > 2 else 1)
        n = _np_ceil(E.sym_div(hi - lo, st) if is_sym(st) or is_sym(hi - lo)
                     else (hi - lo) / st)
        return _array([lo + i * st for i in range(max(0, int(n)))])
    return np.arange(*a, **k)


def _np_linspace(a, b, num=50, endpoint=True, **k):
    num = int(num)
    d = (num - 1) if endpoint else num
    return _array([a + (b - a) * i / d for i in range(num)])


HANDLERS = {
    'max': _np_max, 'amax': _np_max, 'min': _np_min, 'amin': _np_min,
    'nanmax': _np_max, 'nanmin': _np_min,
    'clip': _np_clip, 'where': _np_where, 'isclose': _np_isclose,
    'allclose': _np_allclose, 'all': _all, 'any': _any,
    'round': _np_round, 'around': _np_round, 'sort': _np_sort,
    'argmax': lambda v, *a, **k: _np_arg(v, True),
    'argmin': lambda v, *a, **k: _np_arg(v, False),
    'interp': _np_interp, 'searchsorted': _np_searchsorted,
    'unique': _np_unique, 'arange': _np_arange, 'linspace': _np_linspace,
    'mean': lambda v, *a, **k: wrap(np.asarray(_array(v)).sum()) / len(v),
    'average': lambda v, *a, **k: wrap(np.asarray(_array(v)).sum()) / len(v),
    'array': _array, 'asarray': _array, 'float64': lambda v: v,
    'isscalar': lambda v: True,
    'argsort': lambda v, *a, **k: np.array(
        sorted(range(len(v)), key=lambda i: v[i])),
    'count_nonzero': lambda v, *a, **k: sum(1 for e in np.ravel(v) if e),
    'linalg.norm': lambda v, *a, **k: E.sym_sqrt(
        sum(e * e for e in list(v)), True),
}
STRUCTURAL = {
    'hstack', 'vstack', 'append', 'insert', 'concatenate', 'stack', 'flip',
    'roll', 'cumsum', 'diff', 'sum', 'dot', 'outer', 'transpose', 'reshape',
    'repeat', 'tile', 'column_stack', 'delete', 'ravel', 'squeeze',
    'atleast_1d', 'prod', 'split', 'array_split', 'flipud', 'fliplr', 'copy',
    'inner', 'matmul', 'vdot', 'meshgrid', 'expand_dims', 'swapaxes',
    'full_like', 'shape', 'size', 'ndim', 'take', 'ediff1d', 'broadcast_to',
    'convolve', 'trapz', 'array_equal', 'subtract.outer', 'shares_memory',
    'may_share_memory', 'resize', 'pad', 'iterable', 'r_', 'tril', 'triu',
    'ndenumerate', 'ndindex'}


def _wrapfn(name, real):
    def f(*a, **k):
        o = k.pop('out', None)
        if o is None and isinstance(real, np.ufunc) and len(a) > real.nin:
            o, a = a[real.nin], a[:real.nin]
        if o is not None:
            # the result is written into the array given
            o = o[0] if isinstance(o, tuple) else o
            w = k.pop('where', True) if isinstance(real, np.ufunc) else True
            r = f(*a, **k)
            if w is not True:
                if has_sym(w):
                    r = HANDLERS['where'](w, r, o)
                else:
                    r = np.where(np.asarray(w).astype(bool), np.asarray(r),
                                 np.asarray(o))
            np.asarray(o)[...] = r
            return o
        if not (has_sym(a) or has_sym(k)):
            return real(*[deobj(x) for x in a],
                        **{kk: _dtype(deobj(v)) for kk, v in k.items()})
        if name in HANDLERS:
            return HANDLERS[name](*a, **k)
        if isinstance(real, np.ufunc):
            return wrap(_ufunc(real, [_array(x) if isinstance(x, (list, tuple))
                                      else x for x in a], k))
        if name in UNARY and len(a) == 1:
            return _map(UNARY[name], _objarr(a[0]))
        if name in STRUCTURAL:
            def conv(x):
                if isinstance(x, np.ndarray):
                    return np.asarray(x)
                if is_sym(x):
                    return _objarr(x) if name not in (
                        'full_like', 'tile', 'repeat') else x
                if isinstance(x, (list, tuple)) and has_sym(x):
                    if name in ('hstack', 'vstack', 'concatenate', 'stack',
                                'column_stack') and x is a[0]:
                        return [conv(e) for e in x]
                    return np.asarray(_array(x))
                return x
            k.pop('dtype', None)
            if name in ('insert', 'full_like') and a:
                # these keep the dtype of the first array
                a = (np.asarray(a[0]).astype(object),) + tuple(a[1:])
            return wrap(real(*[conv(x) for x in a],
                             **{kk: conv(v) for kk, v in k.items()}))
        raise SymError('numpy.%s of symbolic values is not modelled' % name)
    f.__name__ = name
    return f


def _like(fn):
    base = _filled({'zeros_like': np.zeros, 'ones_like': np.ones,
                    'empty_like': np.empty}[fn])

    def f(a, dtype=None, **k):
        return base(np.shape(a) if not isinstance(a, np.ndarray) else a.shape)
    return f


class NpShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self._cache = {}
        for n, f in (('zeros', np.zeros), ('ones', np.ones),
                     ('empty', np.empty), ('full', np.full)):
            self.__dict__[n] = _filled(f)
        for n in ('zeros_like', 'ones_like', 'empty_like'):
            self.__dict__[n] = _like(n)
        self.__dict__['linalg'] = _Sub('linalg', np.linalg)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        real = getattr(np, name)
        if isinstance(real, type) or not callable(real):
            return real
        r = _wrapfn(name, real)
        if isinstance(real, np.ufunc):
            for m in ('reduce', 'accumulate', 'outer'):
                setattr(r, m, _wrapred(real, m))
        self.__dict__[name] = r
        return r


def _wrapred(uf, m):
    def f(*a, **k):
        a = [_array(x) if isinstance(x, (list, tuple)) else x for x in a]
        return wrap(getattr(uf, m)(*a, **k))
    return f


class _Sub(types.ModuleType):
    def __init__(self, name, real):
        super().__init__('numpy.' + name)
        self._real = real
        self._n = name

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _wrapfn(self._n + '.' + name, getattr(self._real, name))


# ---------------------------------------------------------------- scipy
class Interp1d:
    """scipy.interpolate.interp1d over symbolic data."""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True,
                 bounds_error=None, fill_value=np.nan, assume_sorted=False):
        xs = list(np.asarray(x).ravel()) if isinstance(x, np.ndarray) \
            else list(x)
        ys = list(np.asarray(y).ravel()) if isinstance(y, np.ndarray) \
            else list(y)
        if len(xs) != len(ys):
            raise ValueError('x and y arrays must be equal in length along '
                             'interpolation axis.')
        need = {'linear': 1, 'quadratic': 3, 'cubic': 4, 'slinear': 2,
                'nearest': 1}
        if kind not in need:
            raise SymError('interp1d kind %r' % (kind,))
        if kind in ('quadratic', 'cubic', 'slinear') and len(xs) < need[kind]:
            raise ValueError('The number of derivatives at boundaries does '
                             'not match')
        self.kind = kind
        self.extrapolate = isinstance(fill_value, str) and \
            fill_value == 'extrapolate'
        if isinstance(fill_value, str) and not self.extrapolate:
            # scipy stores such a value untouched; out-of-range queries raise
            # because bounds_error stays on
            pass
        self.bounds_error = bounds_error
        self.fill_value = fill_value
        if self.extrapolate and bounds_error:
            raise ValueError('Cannot extrapolate and raise at the same time.')
        if not assume_sorted:
            pts = _stable_sort(list(zip(xs, ys)))
            xs = [p[0] for p in pts]
            ys = [p[1] for p in pts]
        self._xs, self._ys = xs, ys

    @property
    def x(self):
        return _vec(self._xs)

    @property
    def y(self):
        return _vec(self._ys)

    def __call__(self, v):
        if isinstance(v, (list, tuple, np.ndarray)) and np.ndim(v) > 0:
            a = np.asarray(_array(v)) if not isinstance(v, np.ndarray) \
                else np.asarray(v)
            return _map(self._one, a)
        if isinstance(v, np.ndarray):
            v = v.item()
        return _Scalar0(self._one(v))

    def _one(self, v):
        xs, ys = self._xs, self._ys
        if not self.extrapolate:
            lo = v < xs[0]
            if lo:
                return self._out('A value (%s) in x_new is below the '
                                 'interpolation range', 0)
            hi = v > xs[-1]
            if hi:
                return self._out('A value (%s) in x_new is above the '
                                 'interpolation range', 1)
        if self.kind in ('linear', 'slinear'):
            return self._linear(v)
        if self.kind == 'nearest':
            raise SymError('nearest interpolation')
        return self._spline(v)

    def _out(self, msg, side):
        if self.bounds_error is False:
            fv = self.fill_value
            if isinstance(fv, tuple):
                return fv[side]
            if isinstance(fv, float) and fv != fv:
                raise NotANumber('interp1d out of range gives nan')
            return fv
        raise ValueError(msg)

    def _linear(self, v):
        xs, ys = self._xs, self._ys
        n = len(xs)
        if n == 1:
            return ys[0]

        def seg(i):
            x0, x1, y0, y1 = xs[i], xs[i + 1], ys[i], ys[i + 1]
            if not has_sym([x0, x1, v]):
                w = (float(v) - float(x0)) / (float(x1) - float(x0))
                if w == 0:
                    return y0
                if w == 1:
                    return y1
                return y0 + (y1 - y0) * w
            d = x1 - x0
            if not is_sym(d) and d == 0:
                raise NotANumber('repeated abscissa')
            try:
                return y0 + E.sym_div((y1 - y0) * (v - x0), d)
            except ZeroDivisionError:
                raise NotANumber('repeated abscissa')
        if not has_sym(xs) and not is_sym(v):
            i = int(np.searchsorted(np.array(xs, float), v))
            i = min(max(i, 1), n - 1) - 1
            return seg(i)
        if not has_sym(xs) and is_sym(v):
            r = seg(n - 2)
            for i in range(n - 3, -1, -1):
                r = _ite(v <= xs[i + 1], seg(i), r)
            return r
        # symbolic abscissae: fork on the segment (binary search)
        lo, hi = 0, n - 2
        while lo < hi:
            m = (lo + hi) // 2
            if v <= xs[m + 1]:
                hi = m
            else:
                lo = m + 1
        return seg(lo)

    def _spline(self, v):
        xs, ys = self._xs, self._ys
        if has_sym(xs):
            raise SymError('spline with symbolic abscissae')
        X = np.array(xs, float)
        deg = {'quadratic': 2, 'cubic': 3}[self.kind]
        n = len(xs)
        if not is_sym(v):
            hit = [i for i in range(n) if X[i] == v]
            if hit:
                return ys[hit[0]]
            r = 0.
            for j in range(n):
                u = np.zeros(n)
                u[j] = 1.
                w = float(scipy.interpolate.interp1d(
                    X, u, kind=self.kind, fill_value='extrapolate')(v))
                r = r + ys[j] * w
            return r
        pps = []
        for j in range(n):
            u = np.zeros(n)
            u[j] = 1.
            spl = scipy.interpolate.make_interp_spline(X, u, k=deg)
            pps.append(scipy.interpolate.PPoly.from_spline(spl))
        br = pps[0].x
        pieces = [i for i in range(len(br) - 1) if br[i + 1] > br[i]]

        def piece(i):
            d = v - float(br[i])
            r, p = 0., 1.
            for m in range(deg, -1, -1):
                c = 0.
                for j in range(n):
                    c = c + ys[j] * float(pps[j].c[m, i])
                r = r + c * p
                p = p * d
            return r
        r = piece(pieces[-1])
        for i in reversed(pieces[:-1]):
            r = _ite(v <= float(br[i + 1]), piece(i), r)
        return r


def _Scalar0(v):
    """0-d result of interp1d"""
    return v if is_sym(v) else np.asarray(float(v))


def _vec(v):
    return _array(v) if has_sym(v) else np.array(v, float)


def _stable_sort(pts):
    out = []
    for p in pts:
        i = len(out)
        while i > 0 and bool(p[0] < out[i - 1][0]):
            i -= 1
        out.insert(i, p)
    return out


def lagrange(x, w):
    if not has_sym([x, w]):
        return scipy.interpolate.lagrange(x, w)
    xs, ws = list(x), list(w)

    class P:
        def __call__(self, v):
            r = 0.
            for j in range(len(xs)):
                p = ws[j]
                for k in range(len(xs)):
                    if k != j:
                        p = p * (v - xs[k]) / (xs[j] - xs[k])
                r = r + p
            return r
    return P()


# iterations which a difficult function may need (0: any limit will do)
SLOW = {'iterations': 0}


def brentq(f, a, b, args=(), xtol=2e-12, rtol=8.881784197001252e-16,
           maxiter=100, full_output=False, disp=True):
    """Contract of scipy.optimize.brentq (over-approximation).

    Endpoints are evaluated; then, unless one of them is a root, any point r
    of the open interval may be returned whose value is zero or is at most as
    large as, and of the other sign than, the value at a point p within twice
    the tolerance.  Both were evaluated, in either order."""
    c = E.CTX

    def ev(x):
        return f(x, *args)
    fa = ev(a)
    fb = ev(b)
    if not is_sym(fa) and not is_sym(fb) and not (is_sym(a) or is_sym(b)):
        if fa * fb > 0:
            raise ValueError('f(a) and f(b) must have different signs')
    if fa == 0:
        return (a, None) if full_output else a
    if fb == 0:
        return (b, None) if full_output else b
    if bool(fa > 0) == bool(fb > 0):
        raise ValueError('f(a) and f(b) must have different signs')
    ta, tb = term(a), term(b)
    if maxiter < SLOW['iterations'] and \
            c.branch(z3.Bool('brentq_slow!%d' % c.fresh_n)):
        if disp:
            raise RuntimeError('Failed to converge after %d iterations.' %
                               maxiter)
        r = c.fresh('brentq_stop')
        c.add(z3.And(r >= ta, r <= tb))
        ev(SymReal(r))
        return (SymReal(r), None) if full_output else SymReal(r)
    r = c.fresh('brentq_root')
    p = c.fresh('brentq_last')
    c.add(z3.And(r >= ta, r <= tb, p >= ta, p <= tb, p != r) if True else None)
    d = 2 * (E.rat(xtol) + E.rat(rtol) * z3.If(r >= 0, r, -r))
    c.add(z3.And(p - r <= d, r - p <= d))
    R, P = SymReal(r), SymReal(p)
    first = c.branch(z3.Bool('brentq_order!%d' % c.fresh_n))
    if first:
        fr, fp = ev(R), ev(P)
    else:
        fp, fr = ev(P), ev(R)
    tr, tp = term(fr), term(fp)
    ab = lambda t: z3.If(t >= 0, t, -t)
    c.add(z3.Or(tr == 0, z3.And(z3.Or(z3.And(tr > 0, tp < 0),
                                      z3.And(tr < 0, tp > 0)),
                                ab(tr) <= ab(tp))))
    c.uf_apps.setdefault('brentq', []).append((r, tr))
    return (R, None) if full_output else R


def dgtsv(dl, d, du, b, overwrite_dl=0, overwrite_d=0, overwrite_du=0,
          overwrite_b=0):
    """Exact tridiagonal solution by elimination over the symbolic terms."""
    if not has_sym([dl, d, du, b]):
        x = [np.asarray(v, dtype=float) for v in (dl, d, du, b)]
        r = scipy.linalg.lapack.dgtsv(*[v.copy() for v in x])
        if overwrite_b:
            for i in range(len(b)):
                b[i] = float(r[3][i])
        return r
    n = len(d)
    D, B = list(d), list(b)
    for i in range(1, n):
        w = dl[i - 1] / D[i - 1]
        D[i] = D[i] - w * du[i - 1]
        B[i] = B[i] - w * B[i - 1]
    x = [None] * n
    x[n - 1] = B[n - 1] / D[n - 1]
    for i in range(n - 2, -1, -1):
        x[i] = (B[i] - du[i] * x[i + 1]) / D[i]
    if overwrite_b:
        for i in range(n):
            b[i] = x[i]
    return du, d, du, _array(x), 0


class Proxy(types.ModuleType):
    def __init__(self, name, real, over=None, subs=None):
        super().__init__(name)
        self.__dict__['_p_real'] = real
        for k, v in (over or {}).items():
            self.__dict__[k] = v
        for k, v in (subs or {}).items():
            self.__dict__[k] = v

    def __getattr__(self, n):
        if n.startswith('__') and n not in ('__version__',):
            raise AttributeError(n)
        return getattr(self.__dict__['_p_real'], n)


def _m1(symf, realf):
    def f(x, *a):
        if is_sym(x) or (a and is_sym(a[0])):
            return symf(x, *a)
        return realf(x, *a)
    return f


def _mlog(x, base=None):
    r = E.sym_log(x)
    if base is None:
        return r
    return r / (E.sym_log(base) if is_sym(base) else math.log(base))


math_shim = Proxy('math', math, {
    'log': _m1(_mlog, math.log),
    'exp': _m1(E.sym_exp, math.exp),
    'sqrt': _m1(lambda x: E.sym_sqrt(x), math.sqrt),
    'floor': lambda x: (x if x.isint else x.__floor__()) if isinstance(
        x, SymReal) else math.floor(x),
    'ceil': lambda x: (x if x.isint else x.__ceil__()) if isinstance(
        x, SymReal) else math.ceil(x),
    'trunc': lambda x: E.trunc_int(x) if is_sym(x) else math.trunc(x),
    'fabs': lambda x: abs(x),
    'cos': _m1(lambda x: E.sym_trig('cos', x), math.cos),
    'sin': _m1(lambda x: E.sym_trig('sin', x), math.sin),
    'pow': lambda a, b: a ** b,
    'isclose': lambda a, b, rel_tol=1e-9, abs_tol=0.: (
        abs(a - b) <= E.sym_max([E.sym_max([abs(a), abs(b)]) * rel_tol,
                                 abs_tol])) if is_sym(a) or is_sym(b)
    else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol),
    'isnan': lambda x: False if is_sym(x) else math.isnan(x),
    'isinf': lambda x: False if is_sym(x) else math.isinf(x),
    'isfinite': lambda x: True if is_sym(x) else math.isfinite(x),
    'hypot': lambda a, b: E.sym_sqrt(a * a + b * b) if is_sym(a) or is_sym(b)
    else math.hypot(a, b),
    'copysign': lambda a, b: math.copysign(a, b) if not (
        is_sym(a) or is_sym(b)) else _ite(b >= 0, abs(a), -abs(a)),
    'fsum': lambda v: sum(v) if has_sym(v := list(v)) else math.fsum(v),
    'dist': lambda p, q: E.sym_sqrt(sum((a - b) * (a - b)
                                        for a, b in zip(p, q)))
    if has_sym([p, q]) else math.dist(p, q),
})

np_shim = NpShim()
sp_interp = Proxy('scipy.interpolate', scipy.interpolate,
                  {'interp1d': Interp1d, 'lagrange': lagrange})
sp_opt_opt = Proxy('scipy.optimize.optimize', scipy.optimize, {})
sp_opt = Proxy('scipy.optimize', scipy.optimize,
               {'brentq': brentq, 'optimize': sp_opt_opt})
sp_lapack = Proxy('scipy.linalg.lapack', scipy.linalg.lapack,
                  {'dgtsv': dgtsv})
sp_linalg = Proxy('scipy.linalg', scipy.linalg, {'lapack': sp_lapack})
sp = Proxy('scipy', scipy, {'interpolate': sp_interp, 'optimize': sp_opt,
                            'linalg': sp_linalg})


# ---------------------------------------------------------------- cv2
def _ppt(pts, x, y):
    """point_polygon_test for numbers."""
    cross = False
    for i in range(len(pts)):
        (x1, y1), (x2, y2) = pts[i - 1], pts[i]
        c = (x2 - x1) * (y - y1) - (y2 - y1) * (x - x1)
        if c == 0 and min(x1, x2) <= x <= max(x1, x2) and \
                min(y1, y2) <= y <= max(y1, y2):
            return 0.
        if min(y1, y2) <= y < max(y1, y2) and (c > 0 if y2 > y1 else c < 0):
            cross = not cross
    return 1. if cross else -1.


def point_polygon_test(contour, pt, measureDist):
    """Exact point-in-polygon over the reals (the library takes vertices as
    integers; a corner given symbolically is already one here)."""
    pts = [tuple(int(c) if not is_sym(c) else c for c in p)
           for p in np.asarray(contour).tolist()]
    if not pts:
        # OpenCV rejects an empty contour
        raise Exception('cv2.error: (-215:Assertion failed) total >= 0 && '
                        '(depth == CV_32S || depth == CV_32F)')
    if measureDist:
        raise SymError('pointPolygonTest with distances')
    x, y = pt
    n = len(pts)
    if not any(is_sym(v) for p in pts + [(x, y)] for v in p):
        return _ppt(pts, Fraction(float(x)), Fraction(float(y)))
    tx, ty = term(x), term(y)

    def mn(a, b):
        return z3.If(term(a) <= term(b), term(a), term(b)) \
            if is_sym(a) or is_sym(b) else term(min(a, b))

    def mx(a, b):
        return z3.If(term(a) >= term(b), term(a), term(b)) \
            if is_sym(a) or is_sym(b) else term(max(a, b))
    on_terms, cross = [], z3.BoolVal(False)
    for i in range(n):
        x1, y1 = pts[i - 1]
        x2, y2 = pts[i]
        dx = z3.simplify(term(x2) - term(x1), som=True)
        dy = z3.simplify(term(y2) - term(y1), som=True)
        c = dx * (ty - term(y1)) - dy * (tx - term(x1))
        on_terms.append(z3.And(
            c == 0, tx >= mn(x1, x2), tx <= mx(x1, x2),
            ty >= mn(y1, y2), ty <= mx(y1, y2)))
        straddle = z3.And(ty >= mn(y1, y2), ty < mx(y1, y2))
        # crossing point to the right of (x, y)
        right = z3.If(dy > 0, c > 0, c < 0)
        cross = z3.Xor(cross, z3.And(straddle, right))
    on_c = z3.simplify(z3.Or(*on_terms))
    in_c = z3.simplify(cross)
    if z3.is_true(on_c) or not z3.is_false(on_c) and E.CTX.branch(on_c):
        return 0.
    if z3.is_true(in_c) or z3.is_false(in_c):
        return 1. if z3.is_true(in_c) else -1.
    return 1. if E.CTX.branch(in_c) else -1.


# ---------------------------------------------------------------- builtins
class NumMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, SymReal):
            return o.isint if cls._real is int else not o.isint
        if isinstance(o, SymBool):
            return cls._real in (int, bool)
        return isinstance(o, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real) or c is cls

    def __eq__(cls, o):
        return o is cls or o is cls._real or \
            (cls._real is float and o is SymReal)

    def __ne__(cls, o):
        return not (cls == o)

    def __hash__(cls):
        return hash(cls._real)


class IntShim(int, metaclass=NumMeta):
    _real = int

    def __new__(cls, *a, **k):
        if a and is_sym(a[0]):
            return E.trunc_int(a[0])
        if a and isinstance(a[0], str):
            v = E.untoken(a[0])
            if v is not None:
                return E.trunc_int(v)
        return int(*a, **k)


class FloatShim(float, metaclass=NumMeta):
    _real = float

    def __new__(cls, *a, **k):
        if a and isinstance(a[0], SymReal):
            return SymReal(a[0].t)
        if a and isinstance(a[0], SymBool):
            return SymReal(term(a[0]))
        if a and isinstance(a[0], str):
            v = E.untoken(a[0])
            if v is not None:
                return v
        return float(*a, **k)


def _by_key(v, k, extreme, plain):
    keys = [k['key'](x) for x in v]
    if v and has_sym(keys) and builtins.all(
            isinstance(q, (int, float, E.SymReal)) for q in keys):
        m = extreme(keys)
        for x, q in zip(v[:-1], keys):  # the first one, as in Python
            if q == m:
                return x
        return v[-1]
    k = {n: q for n, q in k.items() if n != 'key'}
    if not v:
        return plain(v, **k)
    i = plain(range(len(v)), key=lambda i: keys[i])
    return v[i]


def _bmax(*a, **k):
    if k.get('key') is None:
        v = list(a[0]) if len(a) == 1 else list(a)
        if has_sym(v):
            return E.sym_max(v)
        if len(a) == 1:
            a = (v,)
    elif a:
        v = list(a[0]) if len(a) == 1 else list(a)
        return _by_key(v, k, E.sym_max, builtins.max)
    return builtins.max(*a, **k)


def _bmin(*a, **k):
    if k.get('key') is None:
        v = list(a[0]) if len(a) == 1 else list(a)
        if has_sym(v):
            return E.sym_min(v)
        if len(a) == 1:
            a = (v,)
    elif a:
        v = list(a[0]) if len(a) == 1 else list(a)
        return _by_key(v, k, E.sym_min, builtins.min)
    return builtins.min(*a, **k)


def _lex(a, b):
    """(a < b, a == b) of two keys, numbers or tuples of numbers."""
    if isinstance(a, tuple):
        lt, eq = z3.BoolVal(False), z3.BoolVal(True)
        for p, q in zip(a, b):
            l, e = _lex(p, q)
            lt = z3.Or(lt, z3.And(eq, l))
            eq = z3.And(eq, e)
        return lt, eq
    return term(a) < term(b), term(a) == term(b)


def _numeric_key(q, like=None):
    if isinstance(q, tuple):
        return builtins.all(_numeric_key(e) for e in q) and \
            isinstance(like, tuple) and len(q) == len(like)
    return not isinstance(like, tuple) and (
        isinstance(q, E.SymReal) or
        isinstance(q, (int, float, np.number)) and math.isfinite(q))


class LazySorted(collections.abc.MutableSequence):
    """sorted() over symbolic keys: an element is decided when it is asked
    for (n ways for the first, not n! for the whole order)."""

    def __init__(self, items, keys, reverse):
        self._rest = list(zip(items, keys))
        self._front, self._back = [], []
        self._rev = reverse
        self._all = None

    def _before(self, i, j):
        """Element i of the rest comes before element j (stable)."""
        a, b = self._rest[i][1], self._rest[j][1]
        lt, eq = _lex(b, a) if self._rev else _lex(a, b)
        return z3.Or(lt, eq) if i < j else lt

    def _take(self, first):
        n = len(self._rest)
        for i in range(n - 1):
            c = z3.And(*[self._before(i, j) if first else self._before(j, i)
                         for j in range(n) if j != i])
            if E.CTX.branch(c):
                return self._rest.pop(i)[0]
        return self._rest.pop(n - 1)[0]

    def _list(self):
        if self._all is None:
            while self._rest:
                self._front.append(self._take(True))
            self._all = self._front + self._back[::-1]
        return self._all

    def __len__(self):
        return len(self._front) + len(self._rest) + len(self._back) \
            if self._all is None else len(self._all)

    def __getitem__(self, i):
        if self._all is not None or not isinstance(i, (int, np.integer)):
            return self._list()[i]
        n = len(self)
        if not -n <= i < n:
            raise IndexError('list index out of range')
        i = i % n
        if i >= n - len(self._back):
            return self._back[n - 1 - i]
        if i < n // 2 or i < len(self._front):
            while len(self._front) <= i:
                self._front.append(self._take(True))
            return self._front[i]
        while len(self._back) < n - i:
            self._back.append(self._take(False))
        return self._back[n - 1 - i]

    def __setitem__(self, i, v):
        self._list()[i] = v

    def __delitem__(self, i):
        del self._list()[i]

    def insert(self, i, v):
        self._list().insert(i, v)

    def __add__(self, o):
        return self._list() + list(o)

    def __radd__(self, o):
        return list(o) + self._list()

    def __mul__(self, n):
        return self._list() * n

    def __eq__(self, o):
        return self._list() == (o._list() if isinstance(o, LazySorted)
                                else o)

    def __deepcopy__(self, memo):
        return copy.deepcopy(self._list(), memo)

    def __copy__(self):
        return list(self._list())

    copy = __copy__

    def sort(self, **k):
        self._list().sort(**k)

    __hash__ = None


def _bsorted(v, *, key=None, reverse=False):
    items = list(v)
    keys = [key(x) for x in items] if key is not None else items
    if len(items) > 1 and has_sym(keys) and builtins.all(
            _numeric_key(q, keys[0]) for q in keys):
        return LazySorted(items, keys, builtins.bool(reverse))
    order = builtins.sorted(range(len(items)), key=lambda i: keys[i],
                            reverse=reverse)
    return [items[i] for i in order]


SHIMS = {
    'numpy': np_shim, 'math': math_shim, 'scipy': sp,
    'scipy.interpolate': sp_interp, 'scipy.optimize': sp_opt,
    'scipy.optimize.optimize': sp_opt_opt, 'scipy.linalg': sp_linalg,
    'scipy.linalg.lapack': sp_lapack,
}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in SHIMS:
            if fromlist:
                return SHIMS[name]
            return SHIMS[name.split('.')[0]]
        if name == 'cv2':
            return cv2_shim()
        if name == 'pygfunction' or name.startswith('pygfunction.'):
            from . import gtstub
            m = gtstub.module()
            if fromlist and '.' in name:
                for part in name.split('.')[1:]:
                    m = getattr(m, part)
            return m
        if name.startswith('scipy.') or name.startswith('numpy.'):
            m = builtins.__import__(name, globals, locals, fromlist, level)
            if not fromlist:
                return SHIMS[name.split('.')[0]]
            return m
    return builtins.__import__(name, globals, locals, fromlist, level)


_cv2 = None


def cv2_shim():
    global _cv2
    if _cv2 is None:
        _cv2 = types.ModuleType('cv2')
        _cv2.pointPolygonTest = point_polygon_test
    return _cv2


BUILTINS = dict(vars(builtins))
BUILTINS.update({'int': IntShim, 'float': FloatShim, 'max': _bmax,
                 'min': _bmin, 'sorted': _bsorted, '__import__': _import})


class Loader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        src = self.get_data(self.path)
        code = compile(src, self.path, 'exec', dont_inherit=True)
        module.__dict__['__builtins__'] = BUILTINS
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'ghedt' and not fullname.startswith('ghedt.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(fullname, f),
                submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            f = base + '.py'
            return importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(fullname, f))
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        for m in [m for m in sys.modules
                  if m == 'ghedt' or m.startswith('ghedt.')]:
            del sys.modules[m]
        sys.meta_path.insert(0, Finder())
