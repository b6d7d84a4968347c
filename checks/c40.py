"""C40 / the plots show the data they are made of."""
from checks.env import *
import math

BOUNDS = ('load series of 8 hours with 4 free hours; temperatures of a free '
          'month with 4 free hours; fields of 1 to 8 boreholes; polygons of '
          '3 to 6 corners; one to four stored g-functions of 5 free values')
ASSUMPTIONS = ['the drawing itself is matplotlib\'s: what the axes are given '
               'is recorded']


def cases(tier):
    cs = [{'id': 'hours-' + p, 'k': 'hours', 'p': p}
          for p in ('both', 'heat', 'cool', 'none')]
    for e in (True, False):
        for r in (True, False):
            cs.append({'id': 'days-%d%d' % (e, r), 'k': 'days', 'e': e,
                       'r': r})
    cs += [{'id': 'curves-%d' % n, 'k': 'curves', 'n': n} for n in (1, 2, 4)]
    cs += [{'id': 'field-%d' % n, 'k': 'field', 'n': n} for n in (1, 8)]
    for n, g in ((3, 0), (4, 4), (6, 3), (0, 0)):
        cs.append({'id': 'land-%d-%d' % (n, g), 'k': 'land', 'n': n, 'g': g})
    cs.append({'id': 'months', 'k': 'months'})
    return cs


class Ax:
    """Axes that remember what they are given."""

    def __init__(self):
        self.lines, self.dots, self.ticks = [], [], None

    def plot(self, x, y, *a, **k):
        self.lines.append((list(x), list(y), k.get('label')))

    def scatter(self, x, y, *a, **k):
        one = not hasattr(x, '__iter__')
        self.dots.append(([x] if one else list(x), [y] if one else list(y),
                          k.get('label')))

    def get_xticks(self):
        return [0, 24, 48]

    def set_xticks(self, t, *a, **k):
        self.ticks = list(t)

    def get_legend_handles_labels(self):
        return ([], [])

    def __getattr__(self, n):
        return lambda *a, **k: Ax()


class Fig:
    def __init__(self, axes):
        self.axes = axes

    def add_subplot(self, *a, **k):
        self.axes.append(Ax())
        return self.axes[-1]

    def __getattr__(self, n):
        return lambda *a, **k: Ax()


def points(series):
    return [(scalar(a), scalar(b)) for s in series for a, b in zip(s[0], s[1])]


def same(S, what, got, want):
    S.prove(what, len(got) == len(want), (len(got), len(want)))
    S.prove(what, sand([sand(abs(a[0] - b[0]) <= 1e-9,
                             abs(a[1] - b[1]) <= 1e-9)
                        for a, b in zip(got, want)]), (got, want))


def harness(S, case):
    dt, plat, gt = mods(S)
    axes = []
    S.hook('figure', lambda *a, **k: Fig(axes))
    import matplotlib.pyplot as plt
    S.patch(plt, 'subplots', lambda *a, **k: (
        Fig(axes), Fig(axes).add_subplot()))
    globals()[case['k']](S, case, dt, plat, gt, axes)


def hours(S, case, dt, plat, gt, axes):
    h, p = built_hybrid(S, plat), case['p']
    q = {}
    for s, l in (('cool', 'rejection'), ('heat', 'extraction')):
        v = [0.] * 8
        if p in (s, 'both'):
            for i in ((0, 3) if s == 'cool' else (3, 7)):
                v[i] = S.real('%s%d' % (s, i), 0, 100)
                if i == 0 or i == 7:
                    S.assume(v[i] >= 1e-6)
                else:
                    S.assume(sor(v[i] == 0, v[i] >= 1e-6))
        q[s] = v
        setattr(h, l, types.SimpleNamespace(hourly=v))
    h.visualize_hourly_heat_extraction()
    S.prove('one plot', len(axes) == 1)
    got = sorted(points(axes[0].dots), key=lambda t: (t[0],))
    want = {}
    for s in q:
        want[s] = [(i, v if s == 'heat' else -v) for i, v in
                   enumerate(q[s]) if v != 0.0]
    for s, w in (('heat', 'extraction'), ('cool', 'rejection')):
        d = [x for x in axes[0].dots if x[2] and w in x[2].lower()]
        # heat taken from the ground is positive
        same(S, 'extraction is positive, rejection negative, at their hours',
             points(d), want[s])
    S.prove('nothing else is shown',
            len(got) == len(want['heat']) + len(want['cool']))


def days(S, case, dt, plat, gt, axes):
    h = built_hybrid(S, plat)
    m = S.int('month', 1, 12)
    data = {}
    for l in ('rejection', 'extraction'):
        def T(tag):
            out = [[0]]
            for i in range(1, 13):
                v = [0.01 * i * j for j in range(49)]
                if i == m:
                    for j in (1, 20, 47):
                        v[j] = S.real('%s_%s%d' % (l, tag, j), 0, 50)
                out.append(v)
            return out
        d = [0.] + [S.real('%s_d%d' % (l, i), 0, 48) for i in range(12)]
        data[l] = types.SimpleNamespace(
            monthly_two_day_fluid_temps_pk=T('pk'),
            monthly_two_day_fluid_temps_nm=T('nm'), monthly_peak_duration=d)
        setattr(h, l, data[l])
    h.visualize_fluid_simulation_results(m, extraction=case['e'],
                                         rejection=case['r'])
    S.prove('one plot', len(axes) == 1)
    ax = axes[0]
    named = [l for l in ax.lines if l[2]]
    for l, on in (('extraction', case['e']), ('rejection', case['r'])):
        own = [x for x in named if l in x[2].lower()]
        S.prove('a load is shown when asked for', bool(own) == on)
        for x in own:
            src = 'pk' if 'peak' in x[2].lower() else 'nm'
            w = getattr(data[l], 'monthly_two_day_fluid_temps_' + src)[m]
            same(S, 'the temperatures of the month and load',
                 points([x]), list(enumerate(w)))
        if on:
            S.prove('both responses are shown', len(own) == 2)
            d = data[l].monthly_peak_duration[m]
            S.prove('the duration is marked', sor(
                [abs(p[0] - d) <= 1e-9 for p in points(ax.dots)]))
            S.prove('the duration is on the axis', sor(
                [abs(scalar(t) - d) <= 0.05 + 1e-9 for t in ax.ticks[3:]]))


def curves(S, case, dt, plat, gt, axes):
    n = case['n']
    lt = [-8.5, -4.5, -1., 1., 3.]
    H = [24. * 2 ** i for i in range(n)]
    g = {h: S.reals('g%d_' % i, 5, -5, 60) for i, h in enumerate(H)}
    G = dt.gfunction.GFunction(5., {h: .075 for h in H}, {h: 2. for h in H},
                               g, lt, [(0., 0.), (5., 0.)])
    G.visualize_g_functions()
    S.prove('one plot', len(axes) == 1)
    L = axes[0].lines
    S.prove('one curve per height', len(L) == n)
    for h in H:
        own = [x for x in L if x[2] and x[2].endswith('/%d' % h)]
        S.prove('one curve per height', len(own) == 1)
        same(S, 'the curve of the height', points(own), list(zip(lt, g[h])))


def field(S, case, dt, plat, gt, axes):
    n = case['n']
    c = [(S.real('x%d' % i, -500, 500), S.real('y%d' % i, -500, 500))
         for i in range(n)]
    other = [(1., 2.), (3., 4.)]
    G = dt.gfunction.GFunction(5., {96.: .075}, {96.: 2.}, {96.: [1.]}, [0.],
                               list(c))
    G.visualize_borefield()
    G.visualize_borefield(list(other))
    dt.coordinates.visualize_coordinates(list(c))
    S.prove('a plot each', len(axes) == 3)
    for a, w in zip(axes, (c, other, c)):
        same(S, 'the boreholes are shown', points(a.dots), w)


def land(S, case, dt, plat, gt, axes):
    def poly(tag, n):
        return [[S.real('%sx%d' % (tag, i), -99, 99),
                 S.real('%sy%d' % (tag, i), -99, 99)] for i in range(n)]
    P, N, c = poly('p', case['n']), poly('n', case['g']), poly('c', 4)
    keep = [tuple(p) for p in P]
    dt.gfunction.GFunction.visualize_area_and_constraints(
        P, c, no_go=N if N else None)
    S.prove('one plot', len(axes) == 1)
    ax = axes[0]
    want = [p for p in (P[:case['n']], N[:case['g']]) if p]
    S.prove('every outline is shown', len(ax.lines) == len(want))
    for l, w in zip(ax.lines, want):
        same(S, 'outlines are closed', points([l]),
             [tuple(p) for p in w] + [tuple(w[0])])
    same(S, 'the boreholes are shown', points(ax.dots),
         [tuple(p) for p in c])
    S.prove('the outline given is left as it was',
            len(P) == len(keep))


def months(S, case, dt, plat, gt, axes):
    """The two-day temperatures are kept under the number of their month."""
    cls = plat.ground_loads.Loads
    L = built_loads(plat, types.SimpleNamespace())
    L.days_in_month = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    L.monthly_two_day_fluid_temps_nm = [[0]]
    L.monthly_two_day_fluid_temps_pk = [[0]]
    L.monthly_peak_duration = [0] * 13
    L.g_sts, L.ts, L.two_pi_k, L.Rb = None, 1e9, 12., 0.1
    off = S.int('month_without_load', 1, 12)
    L.monthly_peak = [0.] + [0. if m == off else 10. + m
                             for m in range(1, 13)]
    L.monthly_average = [0.] + [0. if m == off else S.real(
        'a%d' % m, 1, 2) if m in (1, 6) else 1.5 for m in range(1, 13)]
    L.monthly_two_day_hourly_peak = [[0]] + [
        [0.] * 48 if m == off else [0.] * 12 + [10. + m] + [0.] * 35
        for m in range(1, 13)]

    def sim(hour_time, q, g_sts, Rb, two_pi_k, ts):
        # stands for the response: the time, steeper for larger peaks
        top = smax([scalar(v) for v in q])
        return [0] + [float(j) * top for j in range(1, 49)]
    S.patch(cls, 'simulate_hourly', staticmethod(sim))
    L.find_peak_durations()
    for a in ('nm', 'pk'):
        T = getattr(L, 'monthly_two_day_fluid_temps_' + a)
        S.prove('temperatures for every month', len(T) == 13, (a, len(T)))
    for m in range(1, 13):
        T = L.monthly_two_day_fluid_temps_pk[m]
        w = 0. if m == off else L.monthly_peak[m] - L.monthly_average[m]
        S.prove('temperatures of 48 hours', len(T) == 49)
        S.prove('the temperatures are those of the month',
                abs(scalar(T[1]) - w) <= 1e-9, (m, off))
