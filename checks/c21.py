"""C21 / temporal superposition."""
from checks.env import *
import bisect
import math

GRIDS = {
    'hours': [1., 2., 3., 4., 5., 6.],
    'hybrid': [100.5, 103.25, 150., 744., 1400.125, 1416.],
    'mixed': [0.5, 24., 8760., 262800., 262801., 3e5],
    'one': [744.],
    'long': [1. + 1.25 * i for i in range(1000)],
}
BOUNDS = ('series of up to 4 (6 thorough) load steps on three time grids, '
          'of 450 (1000) steps of which 6 are free and the g-function fixed, '
          'and of up to 2 (3) steps with arbitrary increasing times; loads, '
          'g-function values, resistance, height, conductivity, flow and '
          'ground temperature arbitrary')
ASSUMPTIONS = ['the g-function is an arbitrary function of ln(t/ts)']


def cases(tier):
    cs = []
    for g in GRIDS:
        for n in (1, 2, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
            if n <= len(GRIDS[g]) and g != 'long':
                for nbh in (1, 6):
                    cs.append({'id': '%s-%d-%d' % (g, n, nbh), 'grid': g,
                               'n': n, 'nbh': nbh})
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        cs.append({'id': 'any-%d' % n, 'grid': None, 'n': n, 'nbh': 4})
    for g in ('hours', 'hybrid'):
        cs.append({'id': 'media-' + g, 'grid': g, 'n': 2, 'nbh': 4,
                   'media': True})
        cs.append({'id': 'zero-' + g, 'grid': g, 'n': 4, 'nbh': 4,
                   'zero': True})
    # long series, some loads free
    for n in (450,) if tier == 'quick' else (450, 1000):
        cs.append({'id': 'long-%d' % n, 'grid': 'long', 'n': n, 'nbh': 4,
                   'long': [0, 3, n // 2, n - 40, n - 2, n - 1]})
    return cs


def harness(S, case):
    dt, plat, gt = mods(S)
    import numpy
    np = dt.ground_heat_exchangers.np
    n, nbh = case['n'], case['nbh']
    # with a free time the scale is one hour, so that the logarithm of the
    # ratio is the same term however it is put together
    ts = 2.0e9 if case['grid'] else 3600.
    free = case.get('media')
    H = S.real('H', 20, 400) if free else 96.
    ks = S.real('k', 0.5, 5) if free else 2.25
    mdot = S.real('m_flow', 0.01, 5) if free else 0.5
    cp = S.real('cp', 1000, 5000) if free else 4182.
    Rb = S.real('Rb', 0.01, 1)
    Tg = S.real('Tg', -5, 40)
    zero = case.get('zero')
    Q = [0. if zero else S.real('q%d' % i, -1e5, 1e5)
         if i in case.get('long', range(n)) else 0. for i in range(n)]
    if case.get('long'):
        Q = [q if i in case['long'] else 100. * ((i * 7) % 13 - 5)
             for i, q in enumerate(Q)]
    if case['grid']:
        t = GRIDS[case['grid']][:n]
    else:
        t = [S.real('t%d' % i, 0.5, 2e5) for i in range(n)]
        for a, b in zip([0.] + t, t):
            S.assume(b >= a + 0.1)

    def g_of(x):
        if case.get('long'):
            return 30. + 1.5 * x + 0.02 * x * x
        return S.curve('g', x, -20, 60)
    grid = {}
    if case['grid']:
        tt = [0.] + t
        for i in range(len(tt)):
            for j in range(i):
                d = tt[i] - tt[j]
                grid[math.log(d * 3600. / ts)] = d
    keys = sorted(grid)

    def snap(x):
        # the logarithm of the grid nearest to the one asked for
        x = scalar(x)
        if is_sym(x) or not grid:
            return x
        i = bisect.bisect(keys, float(x))
        b = min(keys[max(0, i - 1):i + 1], key=lambda v: abs(v - float(x)))
        if case['n'] < 50 or abs(b - float(x)) > 1e-9 * (1 + abs(b)):
            S.prove('the g-function is taken at times since a load step',
                    abs(b - float(x)) <= 1e-9 * (1 + abs(b)), (float(x),))
        return b

    def g(a):
        a = np.asarray(a)
        out = [g_of(snap(v)) for v in (list(a.ravel())
                                       if hasattr(a, 'ravel') else a)]
        return np.array(out)
    ghe = types.SimpleNamespace()
    ghe.nbh = float(nbh)
    ghe.V_flow_system, ghe.V_flow_borehole = 0.5 * nbh, 0.5
    ghe.B_spacing = 5.
    ghe.GFunction = types.SimpleNamespace(bore_locations=[(0., 0.)] * nbh)
    ghe.radial_numerical = types.SimpleNamespace(t_s=ts)
    ghe.bhe = types.SimpleNamespace(
        soil=types.SimpleNamespace(k=ks, ugt=Tg),
        b=types.SimpleNamespace(H=H, r_b=0.075, D=2.),
        compute_effective_borehole_resistance=lambda *a, **k: Rb,
        m_flow_borehole=mdot,
        fluid=types.SimpleNamespace(cp=cp, rho=998.))
    ghe = built_ghe(S, dt, plat, ghe)
    T, dTb = ghe._simulate_detailed(np.array(Q), np.array(t), g)
    T = [scalar(v) for v in T]
    dTb = [scalar(v) for v in dTb]
    S.prove('one temperature per load step', len(T) == n and len(dTb) == n)
    tt = [0.] + t
    q = [0.] + Q
    c = 2. * math.pi * ks
    for i in range(1, n + 1):
        S.observe('T%d' % i, T[i - 1])
        if zero:
            S.prove('no load, no change', sand(
                abs(dTb[i - 1]) <= 1e-9, abs(T[i - 1] - Tg) <= 1e-9))
            continue
        e = 0.
        for j in range(1, i + 1):
            d = tt[i] - tt[j - 1]
            x = d * 3600. / ts
            x = slog(x) if is_sym(x) else snap(math.log(x))
            # multiplied by H, 2 pi k and the number of boreholes
            e = e + (q[j] - q[j - 1]) * g_of(x)
        f = nbh * c * H
        S.prove('wall temperature superposes the load steps',
                abs(dTb[i - 1] * f - e) <= 1e-6 * f, i)
        S.prove('the wall temperature is that of the ground plus its change, '
                'the fluid follows from resistance and flow',
                abs((T[i - 1] - Tg - dTb[i - 1]) * nbh * H * 2 * mdot * cp -
                    q[i] * Rb * 2 * mdot * cp + q[i] * H)
                <= 1e-6 * nbh * H * mdot * cp, i)
