"""Shared parts of the checks on borehole fields."""
from fractions import Fraction
import z3
from checks.env import *
from symx import engine as E

TOL = 1e-7


class Axis:
    """Distinct coordinate values of a field, in increasing order."""

    def __init__(self, S, vals):
        self.S = S
        self.vals = []
        self.ids = {}
        self.num = []
        model = None
        if S.sym:
            if not S.ctx.sat():
                raise E.PathInfeasible()
            model = S.ctx.last_model
        for v in vals:
            self._add(v, model)
        order = sorted(range(len(self.vals)), key=lambda i: self.num[i])
        rank = {o: r for r, o in enumerate(order)}
        self.sorted = [self.vals[o] for o in order]
        self._rank = rank

    def _key(self, v, model):
        v = scalar(v)
        if is_sym(v):
            t = z3.simplify(v.t, som=True)
            return ('t', t.get_id()), t, E.to_fraction(
                model.eval(t, model_completion=True))
        f = Fraction(float(v)) if self.S.sym else float(v)
        return None, None, f

    def _add(self, v, model):
        key, t, f = self._key(v, model)
        if key is not None and key in self.ids:
            return
        for i, g in enumerate(self.num):
            if not self.S.sym:
                same = abs(f - g) <= 1e-9 * (1 + abs(g))
            elif abs(f - g) > Fraction(1, 10 ** 9):
                same = False
            else:       # equal in this model: always equal?
                d = scalar(v) - self.vals[i]
                same = not is_sym(d) and d == 0 or (
                    is_sym(d) and not self.S.ctx.sat(
                        z3.Or(d.t > E.rat(1e-9), d.t < E.rat(-1e-9))))
            if same:
                if key is not None:
                    self.ids[key] = i
                    self._keep = getattr(self, '_keep', []) + [t]
                else:
                    self.ids[('f', f)] = i
                return
        self.ids[key if key is not None else ('f', f)] = len(self.vals)
        self._keep = getattr(self, '_keep', []) + [t]
        self.vals.append(scalar(v))
        self.num.append(f)

    def index(self, v):
        v = scalar(v)
        if is_sym(v):
            key = ('t', z3.simplify(v.t, som=True).get_id())
        else:
            key = ('f', Fraction(float(v)) if self.S.sym else float(v))
        return self._rank[self.ids[key]]


class Lattice:
    """A field as index pairs on its own coordinate axes."""

    def __init__(self, S, field):
        self.S = S
        self.field = [(scalar(p[0]), scalar(p[1])) for p in field]
        self.X = Axis(S, [p[0] for p in self.field])
        self.Y = Axis(S, [p[1] for p in self.field])
        self.pts = [(self.X.index(x), self.Y.index(y))
                    for x, y in self.field]
        self.nx, self.ny = len(self.X.sorted), len(self.Y.sorted)

    @property
    def xs(self):
        return self.X.sorted

    @property
    def ys(self):
        return self.Y.sorted

    def distinct(self):
        return len(set(self.pts)) == len(self.pts)

    def full(self):
        return self.distinct() and len(self.pts) == self.nx * self.ny


def gaps(v):
    return [b - a for a, b in zip(v, v[1:])]


def prove_inside(S, lat, Lx, Ly):
    S.prove('every borehole is inside the land', sand(
        [sand(x >= -TOL, x <= Lx + TOL) for x in lat.xs] +
        [sand(y >= -TOL, y <= Ly + TOL) for y in lat.ys]),
        (lat.xs[-1], lat.ys[-1], Lx, Ly))


def prove_gaps(S, what, vals, lo, hi):
    g = gaps(vals)
    if g:
        S.prove(what, sand([sand(d >= lo - TOL, d <= hi + TOL) for d in g]),
                tuple(g) + (lo, hi))


def prove_same(S, label, a, b):
    """Two fields hold the same boreholes, whatever their order."""
    if len(a) != len(b):
        S.fail(label, (len(a), len(b)))
        return
    la, lb = Lattice(S, a), Lattice(S, b)
    if la.nx != lb.nx or la.ny != lb.ny or set(la.pts) != set(lb.pts):
        S.fail(label, (la.nx, la.ny, lb.nx, lb.ny))
        return
    S.prove(label, sand([abs(p - q) <= TOL * 10 for p, q in
                         zip(la.xs + la.ys, lb.xs + lb.ys)]))
