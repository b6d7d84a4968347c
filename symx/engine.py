"""Symbolic values and path exploration for the real ghedt code.

The code under test is ordinary Python: it is executed with objects of the
classes below in place of numbers.  Every arithmetic operation builds a z3
term; every truth test on a term becomes a solver-decided fork.  All forks are
explored (depth first, by re-execution), so at the end of a harness the set of
paths covers every value of the symbolic inputs inside the assumed ranges.
"""
import math
import os
import sys
import time
from fractions import Fraction

import numpy as np
import z3

Q = z3.Q


class SymError(Exception):
    """The engine cannot decide something: the check is inconclusive."""

    def __init__(self, *a):
        Exception.__init__(self, *a)
        if CTX is not None:
            CTX.poison = self      # survives a bare except in the code


class PathInfeasible(BaseException):
    """The current path contradicts an assumption: drop it."""

    def __init__(self, *a):
        BaseException.__init__(self, *a)
        if CTX is not None:
            CTX.poison = self


class NotANumber(FloatingPointError):
    """An operation whose float result would be nan or infinite."""


CTX = None  # the active Context


def rat(v):
    f = Fraction(v)
    return z3.RealVal(str(f.numerator) + '/' + str(f.denominator)) \
        if f.denominator != 1 else z3.RealVal(f.numerator)


def is_num(v):
    return isinstance(v, (int, float, np.integer, np.floating, Fraction)) \
        and not isinstance(v, np.ndarray)


def is_sym(v):
    return isinstance(v, (SymReal, SymBool))


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.decisions = 0
        self.paths = 0
        self.pruned = 0
        self.obligations = 0
        self.discharged = 0
        self.unknown = 0
        self.max_query_s = 0.0
        self.labels = {}

    def as_dict(self):
        return dict(self.__dict__)


def _seeded():
    s = z3.Solver()
    s.set('random_seed', 7)
    return s


def _old_arith():
    s = z3.SimpleSolver()
    s.set('smt.arith.solver', 2)
    return s


FALLBACK = (_seeded, lambda: z3.Tactic('qfnra-nlsat').solver(),
            lambda: z3.SolverFor('QF_NRA'), lambda: z3.SolverFor('QF_UFNRA'),
            _old_arith)


class Context:
    def __init__(self, prefix, stats, timeout_ms=60000, log_axioms=True):
        self.prefix = prefix          # decisions to replay
        self.pos = 0
        self.trace = []               # decisions made (kind, value, others)
        self.pending = []             # alternative prefixes discovered
        self.solver = z3.Solver()
        self.solver.set('timeout', min(8000, timeout_ms))
        self.solver.set('random_seed', 1)
        self.stats = stats
        self.memo = {}
        self.inputs = {}              # name -> z3 const
        self.fresh_n = 0
        self.uf_apps = {'log': [], 'exp': [], 'cos': [], 'sin': []}
        self.log_axioms = log_axioms
        self.asserted = []
        self.rounding = False
        self.hard_nonlinear = False
        self.timeout_ms = timeout_ms
        self.poison = None
        self.deadline = None
        self.known = {}               # decided conditions of this path
        self.defs = {}                # name -> (var, constraint, value, deps)
        self.active = set()

    # -- solver ----------------------------------------------------------
    def add(self, term):
        for c in self._needs([term]):
            self.solver.add(c)
            self.asserted.append(c)
        self.solver.add(term)
        self.asserted.append(term)

    def define(self, var, constraint, value):
        """A variable that always has a value: its constraint is left out of
        queries which do not mention it."""
        self.defs[var.decl().name()] = (var, constraint, value,
                                        consts(constraint))

    def _needs(self, terms, keep=True):
        """Constraints of the definitions that the terms rely on."""
        if not self.defs:
            return []
        out, todo, seen = [], [], set()
        for t in terms:
            todo.extend(consts(t))
        while todo:
            n = todo.pop()
            if n in seen or n in self.active or n not in self.defs:
                continue
            seen.add(n)
            out.append(self.defs[n][1])
            todo.extend(self.defs[n][3])
        if keep:
            self.active |= seen
        return out

    def _run(self, extra):
        t = time.time()
        if self.deadline is not None and t > self.deadline:
            raise SymError('time limit of the case')
        active = set(self.active)
        more = self._needs(extra)
        used, self.active = self.active, active
        extra = list(extra) + more
        r = self.solver.check(*extra)
        dt = time.time() - t
        st = self.stats
        st.queries += 1
        st.solver_s += dt
        st.max_query_s = max(st.max_query_s, dt)
        if r == z3.unknown:
            if os.environ.get('SYMX_TRACE'):
                sys.__stderr__.write('unknown after %.2f s: %s\n' % (
                    dt, self.solver.reason_unknown()))
            # second opinions of fresh solvers, with growing time limits
            t = time.time()
            for ms in (3000, 12000, self.timeout_ms):
                for mk in FALLBACK:
                    try:
                        s2 = mk()
                        s2.set('timeout', min(ms, self.timeout_ms))
                        s2.add(*self.asserted)
                        s2.add(*extra)
                        r = s2.check()
                        if r == z3.sat:
                            self._model2 = s2.model()
                        if r != z3.unknown:
                            break
                    except z3.Z3Exception:
                        continue
                if r != z3.unknown:
                    break
            st.solver_s += time.time() - t
            st.queries += 1
            if r == z3.sat:
                return r, Model(self._model2, self.defs, used)
            if r == z3.unknown:
                st.unknown += 1
                return r, None
            return r, None
        if r == z3.sat:
            return r, Model(self.solver.model(), self.defs, used)
        return r, None

    def sat(self, *extra):
        """True / False; raises SymError when the solver gives up."""
        r, m = self._run(extra)
        if r == z3.unknown:
            raise SymError('solver returned unknown (%s)' %
                           self.solver.reason_unknown())
        if r == z3.sat:
            self.last_model = m
            return True
        return False

    def model(self):
        if not self.sat():
            raise PathInfeasible()
        return self.last_model

    # -- forks -----------------------------------------------------------
    def branch(self, term):
        if isinstance(term, bool):
            return term
        t = z3.simplify(term)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = self.known.get(t.get_id())
        if k is not None:
            return k[0]
        r = self._branch(t)
        nt = z3.simplify(z3.Not(t))
        self.known[t.get_id()] = (r, t)
        self.known[nt.get_id()] = (not r, nt)
        return r

    def _branch(self, t):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.add(t if d[1] else z3.Not(t))
            return d[1]
        self.stats.decisions += 1
        self.pos += 1
        can_t = self.sat(t)
        if not can_t:
            self.trace.append(('f', False))
            self.add(z3.Not(t))
            return False
        can_f = self.sat(z3.Not(t))
        if can_f:
            self.pending.append(list(self.trace) + [('d', False)])
            self.trace.append(('d', True))
        else:
            self.trace.append(('f', True))
        self.add(t)
        return True

    def concretize(self, term, what='value'):
        """Fork over the (bounded) integer values of an integer-valued term."""
        t = z3.simplify(term)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            if f.denominator == 1:
                return int(f)
        while True:
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(d)
                kind, v, took = d
                if took:
                    self.add(t == v)
                    return v
                self.add(t != v)
                continue
            self.pos += 1
            self.stats.decisions += 1
            if not self.sat():
                raise PathInfeasible()
            v = to_fraction(self.last_model.eval(t, model_completion=True))
            v = int(v)
            if self.sat(t != v):
                self.pending.append(list(self.trace) + [('c', v, False)])
            self.trace.append(('c', v, True))
            self.add(t == v)
            return v

    def floor_int(self, term):
        """floor() of a real term as a Python int, forking over its values.
        Only real-valued constraints are used (n <= t < n+1)."""
        t = z3.simplify(term)
        if z3.is_rational_value(t):
            return math.floor(Fraction(t.numerator_as_long(),
                                       t.denominator_as_long()))
        while True:
            if self.pos < len(self.prefix):
                kind, v, took = d = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(d)
                inside = z3.And(t >= v, t < v + 1)
                if took:
                    self.add(inside)
                    return v
                self.add(z3.Not(inside))
                continue
            self.pos += 1
            self.stats.decisions += 1
            if not self.sat():
                raise PathInfeasible()
            v = math.floor(to_fraction(
                self.last_model.eval(t, model_completion=True)))
            inside = z3.And(t >= v, t < v + 1)
            # guard against approximated algebraic model values
            if not self.sat(inside):
                for w in (v + 1, v - 1):
                    inside = z3.And(t >= w, t < w + 1)
                    if self.sat(inside):
                        v = w
                        break
                else:
                    raise SymError('floor: no candidate')
            if self.sat(z3.Not(inside)):
                self.pending.append(list(self.trace) + [('n', v, False)])
            self.trace.append(('n', v, True))
            self.add(inside)
            return v

    # -- fresh values ----------------------------------------------------
    def fresh(self, hint):
        self.fresh_n += 1
        return z3.Real('%s!%d' % (hint, self.fresh_n))

    def uf(self, name, x):
        f = z3.Function(name, z3.RealSort(), z3.RealSort())
        key = (name, x.get_id())
        if key in self.memo:
            return self.memo[key][0]
        y = f(x)
        self.memo[key] = (y, x)
        apps = self.uf_apps.setdefault(name, [])
        if self.log_axioms:
            if name == 'log':
                for (x2, y2) in apps:
                    self.add(z3.And((x < x2) == (y < y2), (x == x2) == (y == y2)))
                self.add(z3.And((x > 1) == (y > 0), (x == 1) == (y == 0)))
            elif name == 'exp':
                for (x2, y2) in apps:
                    self.add(z3.And((x < x2) == (y < y2), (x == x2) == (y == y2)))
                self.add(z3.And(y > 0, (x > 0) == (y > 1), (x == 0) == (y == 1)))
        apps.append((x, y))
        return y


_CONSTS = {}


def consts(t):
    """Names of the uninterpreted constants of a term."""
    k = t.get_id()
    r = _CONSTS.get(k)
    if r is not None:
        return r[0]
    out, todo, seen = set(), [t], set()
    while todo:
        u = todo.pop()
        i = u.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = _CONSTS.get(i)
        if c is not None:
            out |= c[0]
            continue
        if u.num_args() == 0:
            if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(u.decl().name())
        else:
            todo.extend(u.children())
    out = frozenset(out)
    if len(_CONSTS) > 200000:
        _CONSTS.clear()
    _CONSTS[k] = (out, t)       # keeps the term alive, so ids stay valid
    return out


class Model:
    """A solver model; variables defined but not mentioned in the query get
    the value of their definition."""

    def __init__(self, m, defs, used):
        self.m = m
        self.defs = defs
        self.used = set(used)
        self.vals = {}

    def eval(self, t, model_completion=True):
        names = [n for n in consts(t) if n in self.defs and
                 n not in self.used]
        if names:
            t = z3.substitute(t, *[(self.defs[n][0], self._val(n))
                                   for n in names])
        return self.m.eval(t, model_completion=model_completion)

    def _val(self, n):
        # definitions refer to earlier ones only
        stack = [n]
        while stack:
            k = stack[-1]
            if k in self.vals:
                stack.pop()
                continue
            var, _c, value, deps = self.defs[k]
            need = [d for d in deps if d != k and d in self.defs and
                    d not in self.used and d not in self.vals]
            if need:
                stack.extend(need)
                continue
            pairs = [(self.defs[d][0], self.vals[d]) for d in deps
                     if d != k and d in self.vals]
            v = z3.substitute(value, *pairs) if pairs else value
            self.vals[k] = self.m.eval(v, model_completion=True)
            stack.pop()
        return self.vals[n]


def to_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise SymError('no numeric value: %s' % v)


def term(v):
    """z3 real term of a number or symbolic number."""
    if isinstance(v, SymReal):
        return v.t
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, (bool, np.bool_)):
        return z3.RealVal(1 if v else 0)
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return term(v.item())
    if is_num(v):
        if isinstance(v, (float, np.floating)):
            v = float(v)
            if v != v or v in (float('inf'), float('-inf')):
                raise NotANumber('nan or inf meets a symbolic value')
        return rat(v if not isinstance(v, np.integer) else int(v))
    raise TypeError('not a number: %r' % (v,))


def bterm(v):
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, SymReal):
        return v.t != 0
    return z3.BoolVal(bool(v))


def _arr(op, a, b, swap):
    out = np.empty(b.shape, dtype=object)
    for idx in np.ndindex(b.shape):
        e = b[idx]
        out[idx] = op(e, a) if swap else op(a, e)
    return out


def _rnd(t):
    """Standard rounding model: fl(t) = t * (1 + e), |e| <= 2^-53."""
    c = CTX
    if not c.rounding or z3.is_rational_value(t):
        return t
    key = ('rnd', t.get_id())
    if key in c.memo:
        return c.memo[key][0]
    u = z3.Q(1, 2 ** 53)
    r = c.fresh('fl')
    a = z3.If(t >= 0, t, -t)
    c.add(z3.And(r - t <= u * a, t - r <= u * a))
    c.memo[key] = (r, t)
    return r


def sym_div(a, b):
    c = CTX
    tb = z3.simplify(term(b))
    ta = term(a)
    if z3.is_rational_value(tb):
        f = to_fraction(tb)
        if f == 0:
            raise ZeroDivisionError('float division by zero')
        return SymReal(_rnd(ta * rat(1 / f)))
    coef = None
    if not c.rounding:
        # rational factors come out, so that like quotients are one variable
        cb, tb = _factor(tb)
        ca, tas = _factor(z3.simplify(ta))
        coef = ca / cb
        if coef == 0:
            coef, tas = None, z3.RealVal(0)
    else:
        tas = z3.simplify(ta)
    if c.branch(tb == 0):
        raise ZeroDivisionError('float division by zero')
    if coef is not None and tas.eq(tb):
        return SymReal(rat(coef))
    q = _quotient(c, tas, tb)
    return SymReal(q if coef is None or coef == 1 else q * rat(coef))


def _factor(t):
    """(rational coefficient, rest) of a simplified term."""
    if z3.is_rational_value(t):
        return to_fraction(t), z3.RealVal(1)
    if z3.is_mul(t) and z3.is_rational_value(t.arg(0)):
        f = to_fraction(t.arg(0))
        if t.num_args() == 2:
            return f, t.arg(1)
        return f, z3.simplify(z3.Product(*[t.arg(i) for i in range(
            1, t.num_args())]))
    return Fraction(1), t


def _quotient(c, tas, tb):
    key = ('div', tas.get_id(), tb.get_id())
    if key in c.memo:
        return c.memo[key][0]
    if z3.is_rational_value(tas) and to_fraction(tas) == 0:
        return z3.RealVal(0)
    q = c.fresh('q')
    if c.rounding:
        c.add(q * tb == tas)
        q = _rnd(q)
    else:
        c.define(q, q * tb == tas, tas / tb)
    c.memo[key] = (q, tas, tb)
    return q


class SymBool:
    __array_ufunc__ = None
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.branch(self.t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, bterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, bterm(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, bterm(o)))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return SymBool(self.t == bterm(o))
        return SymReal(term(self)) == o

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None

    def _r(self):
        return SymReal(term(self), True)

    def __mul__(self, o): return self._r() * o
    __rmul__ = __mul__
    def __add__(self, o): return self._r() + o
    __radd__ = __add__
    def __sub__(self, o): return self._r() - o
    def __rsub__(self, o): return o - self._r()
    def __neg__(self): return -self._r()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def tolist(self):
        return self
    item = tolist


def _bin(fn):
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return _arr(fn, self, o, False)
        if not (is_num(o) or isinstance(o, (SymReal, SymBool, np.ndarray))):
            return NotImplemented
        return fn(self, o)
    return f


def _rbin(fn):
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return _arr(fn, self, o, True)
        if not (is_num(o) or isinstance(o, (SymReal, SymBool, np.ndarray))):
            return NotImplemented
        return fn(o, self)
    return f


def _isint(v):
    return (isinstance(v, SymReal) and v.isint) or \
        (isinstance(v, (int, np.integer))) or isinstance(v, SymBool)


def _inf(o):
    return isinstance(o, (float, np.floating)) and math.isinf(o)


def _cmp(op):
    def fn(a, b):
        # comparison with an infinity is decided
        for (x, y, flip) in ((a, b, False), (b, a, True)):
            if _inf(y):
                r = {'lt': y > 0, 'le': y > 0, 'gt': y < 0, 'ge': y < 0,
                     'eq': False, 'ne': True}
                if flip:
                    r = {'lt': y < 0, 'le': y < 0, 'gt': y > 0, 'ge': y > 0,
                         'eq': False, 'ne': True}
                return bool(r[op])
            if isinstance(y, (float, np.floating)) and y != y:
                return op == 'ne'
        ta, tb = term(a), term(b)
        r = {'lt': lambda: ta < tb, 'le': lambda: ta <= tb,
             'gt': lambda: ta > tb, 'ge': lambda: ta >= tb,
             'eq': lambda: ta == tb, 'ne': lambda: ta != tb}[op]()
        return SymBool(r)
    return fn


def _add(a, b):
    return SymReal(_rnd(term(a) + term(b)), _isint(a) and _isint(b))


def _sub(a, b):
    return SymReal(_rnd(term(a) - term(b)), _isint(a) and _isint(b))


def _mul(a, b):
    for x, y in ((a, b), (b, a)):
        if is_num(y) and y == 0:
            return SymReal(z3.RealVal(0), _isint(a) and _isint(b))
        if is_num(y) and y == 1:
            return x if isinstance(x, SymReal) else SymReal(term(x))
    return SymReal(_rnd(term(a) * term(b)), _isint(a) and _isint(b))


def _floordiv(a, b):
    q = sym_div(a, b)
    return CTX.floor_int(q.t) if _isint(a) and _isint(b) \
        else float(CTX.floor_int(q.t))


def _mod(a, b):
    q = sym_div(a, b)
    n = CTX.floor_int(q.t)
    return _sub(a, _mul(b if isinstance(b, SymReal) else SymReal(term(b), _isint(b)), n)) \
        if n else (a if isinstance(a, SymReal) else SymReal(term(a)))


def sym_sqrt(x, np_like=False):
    c = CTX
    if not is_sym(x):
        return math.sqrt(x)
    t = z3.simplify(term(x))
    if z3.is_rational_value(t):
        f = to_fraction(t)
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return SymReal(rat(Fraction(n, d)))
    key = ('sqrt', t.get_id())
    if key in c.memo:
        return SymReal(c.memo[key][0])
    if c.branch(t < 0):
        raise (NotANumber('sqrt of a negative number') if np_like
               else ValueError('math domain error'))
    s = c.fresh('sqrt')
    c.add(z3.And(s >= 0, s * s == t))
    c.memo[key] = (s, t)
    return SymReal(s)


def sym_log(x, np_like=False):
    if not is_sym(x):
        return math.log(x)
    t = z3.simplify(term(x))
    if CTX.branch(t <= 0):
        raise (NotANumber('log of a non-positive number') if np_like
               else ValueError('math domain error'))
    return SymReal(CTX.uf('log', t))


def sym_exp(x):
    if not is_sym(x):
        return math.exp(x)
    return SymReal(CTX.uf('exp', z3.simplify(term(x))))


def sym_trig(name, x):
    if not is_sym(x):
        return getattr(math, name)(x)
    t = z3.simplify(term(x))
    return SymReal(CTX.uf(name, t))


def _pow(a, b):
    if isinstance(b, (int, np.integer)) or (is_num(b) and float(b) == int(b)):
        n = int(b)
        if n == 0:
            return 1
        r = a
        for _ in range(abs(n) - 1):
            r = _mul(r, a)
        return r if n > 0 else sym_div(1, r)
    if is_num(b) and float(b) == 0.5:
        return sym_sqrt(a)
    if is_num(b) and float(b) == -0.5:
        return sym_div(1, sym_sqrt(a))
    raise SymError('unsupported power %r ** %r' % (a, b))


def sym_abs(a):
    return SymReal(z3.If(a.t >= 0, a.t, -a.t), a.isint)


def _extreme(vals, pick, greater):
    """The largest (smallest) of vals; plain numbers are compared first."""
    vals = list(vals)
    if not vals:
        raise ValueError(pick.__name__ + '() arg is an empty sequence')
    nums = [v for v in vals if not is_sym(v)]
    syms, seen = [], set()
    for v in vals:
        if is_sym(v) and v.t.get_id() not in seen:
            seen.add(v.t.get_id())
            syms.append(v)
    if nums:
        n = pick(nums)
        if not syms:
            return n
        if _inf(n):
            if (n > 0) == greater:
                return n
        else:
            syms.insert(0, n)
    whole = all(_isint(v) for v in vals)
    r = syms[0]
    for v in syms[1:]:
        c = term(v) > term(r) if greater else term(v) < term(r)
        r = SymReal(z3.If(c, term(v), term(r)), whole)
    return r


def sym_max(vals):
    return _extreme(vals, max, True)


def sym_min(vals):
    return _extreme(vals, min, False)


class SymReal:
    __array_ufunc__ = None
    __slots__ = ('t', 'isint')

    def __init__(self, t, isint=False):
        self.t = t
        self.isint = isint

    __add__ = _bin(_add)
    __radd__ = _rbin(_add)
    __sub__ = _bin(_sub)
    __rsub__ = _rbin(_sub)
    __mul__ = _bin(_mul)
    __rmul__ = _rbin(_mul)
    __truediv__ = _bin(sym_div)
    __rtruediv__ = _rbin(sym_div)
    __floordiv__ = _bin(_floordiv)
    __rfloordiv__ = _rbin(_floordiv)
    __mod__ = _bin(_mod)
    __rmod__ = _rbin(_mod)
    __lt__ = _bin(_cmp('lt'))
    __le__ = _bin(_cmp('le'))
    __gt__ = _bin(_cmp('gt'))
    __ge__ = _bin(_cmp('ge'))

    def __eq__(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return _arr(_cmp('eq'), self, o, False)
        if not (is_num(o) or is_sym(o) or isinstance(o, np.ndarray)):
            return False
        if self is o:
            return True
        return _cmp('eq')(self, o)

    def __ne__(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return _arr(_cmp('ne'), self, o, False)
        if not (is_num(o) or is_sym(o) or isinstance(o, np.ndarray)):
            return True
        if self is o:
            return False
        return _cmp('ne')(self, o)

    def __hash__(self):
        return 0

    def __pow__(self, o):
        if isinstance(o, SymReal):
            o = CTX.concretize(o.t)
        return _pow(self, o)

    def __rpow__(self, o):
        n = CTX.concretize(self.t)
        return o ** n

    def __neg__(self):
        return SymReal(-self.t, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return sym_abs(self)

    def __bool__(self):
        return CTX.branch(self.t != 0)

    def __index__(self):
        if not self.isint:
            raise TypeError('float used as an index')
        return CTX.concretize(self.t)

    def __int__(self):
        return trunc_int(self)

    def __float__(self):
        raise SymError('a symbolic value reached a C float() conversion')

    def __floor__(self):
        return CTX.floor_int(self.t)

    def __ceil__(self):
        return -CTX.floor_int(-self.t)

    def __trunc__(self):
        return trunc_int(self)

    def __round__(self, n=None):
        return sym_round(self, n)

    def __divmod__(self, o):
        return (_floordiv(self, o), _mod(self, o))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy scalar look-alikes
    def tolist(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    @property
    def real(self):
        return self

    ndim = 0
    shape = ()
    size = 1

    def floor(self):
        return float(CTX.floor_int(self.t))

    def ceil(self):
        return float(-CTX.floor_int(-self.t))

    def rint(self):
        return sym_round(self, 0)

    def sqrt(self):
        return sym_sqrt(self, True)

    def log(self):
        return sym_log(self, True)

    def exp(self):
        return sym_exp(self)

    def is_integer(self):
        return SymBool(z3.IsInt(self.t))

    def __repr__(self):
        return token(self)

    __str__ = __repr__

    def __format__(self, spec):
        return token(self)


def sym_round(x, n=None):
    """round to n decimals (halves upwards: ties differ from Python's
    half-even rule only on a measure-zero set).  n=None forks over the
    integer value, n=0 gives a symbolic integer; n>0 gives a value y within half a unit of the last place;
    whether y is exactly on the decimal grid is decided when it is floored."""
    if not is_sym(x):
        return round(x) if n is None else round(x, n)
    if n is None:
        return CTX.floor_int(x.t + Q(1, 2))
    if n == 0:
        # a symbolic integer value
        key = ('round', z3.simplify(x.t).get_id(), 0)
        if key not in CTX.memo:
            CTX.fresh_n += 1
            y = z3.ToReal(z3.Int('rnd!%d' % CTX.fresh_n))
            CTX.add(z3.And(y - Q(1, 2) <= x.t, x.t < y + Q(1, 2)))
            CTX.memo[key] = (y, x.t)
        return SymReal(CTX.memo[key][0])
    return SymRounded(x.t, n)


class SymRounded(SymReal):
    """round(x, n) for n > 0, kept symbolic.

    The value is x itself moved by at most half of 10^-n; floors and ceilings
    of it (after adding integers) are decided exactly from x."""
    __slots__ = ('src', 'n')

    def __init__(self, src, n):
        c = CTX
        key = ('round', z3.simplify(src).get_id(), n)
        if key in c.memo:
            y = c.memo[key][0]
        else:
            y = c.fresh('round')
            h = rat(Fraction(1, 2 * 10 ** n))
            c.add(z3.And(y >= src - h, y <= src + h))
            # integers are grid points: rounding snaps to one when close,
            # and never crosses one
            c.memo[key] = (y, src)
        SymReal.__init__(self, y)
        self.src = src
        self.n = n

    def _floor(self):
        # floor(round(x, n)) = k  <=>  k - h <= x < k + 1 - h
        h = rat(Fraction(1, 2 * 10 ** self.n))
        k = CTX.floor_int(self.src + h)
        CTX.add(z3.And(self.t >= k, self.t < k + 1))
        return k

    def _ceil(self):
        h = rat(Fraction(1, 2 * 10 ** self.n))
        k = -CTX.floor_int(-(self.src - h))
        CTX.add(z3.And(self.t <= k, self.t > k - 1))
        return k

    def __floor__(self):
        return self._floor()

    def __ceil__(self):
        return self._ceil()

    def floor(self):
        return float(self._floor())

    def ceil(self):
        return float(self._ceil())

    def __add__(self, o):
        if isinstance(o, (int, float)) and float(o) == int(o):
            r = SymRounded(self.src + rat(o), self.n)
            return r
        return SymReal(self.t) + o
    __radd__ = __add__


def trunc_int(x):
    if isinstance(x, SymBool):
        return 1 if x else 0
    if not is_sym(x):
        return int(x)
    if x.isint or z3.is_app_of(x.t, z3.Z3_OP_TO_REAL):
        return x
    if isinstance(x, SymRounded):
        if CTX.branch(x.src >= 0):
            return x._floor()
        return x._ceil()
    if CTX.branch(x.t >= 0):
        return CTX.floor_int(x.t)
    return -CTX.floor_int(-x.t)


# -- text tokens: symbolic numbers survive str()/format() and float() --------
_TOKENS = {}


def token(v):
    k = '\u27e6%d\u27e7' % len(_TOKENS)
    _TOKENS[k] = v
    return k


def untoken(s):
    return _TOKENS.get(s.strip())


def reset_tokens():
    _TOKENS.clear()
