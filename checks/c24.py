"""C24 / borehole radius correction and the long-time curve in use."""
from checks.env import *

BOUNDS = ('curves of up to 6 (27 thorough) arbitrary values, any two or three '
          'radii between 1 mm and 1 m; the curve of an exchanger of any '
          'height between two stored ones')
ASSUMPTIONS = ['the logarithm satisfies log(a/b) = log a - log b']


def cases(tier):
    cs = [{'id': 'correct-%d' % n, 'k': 'one', 'n': n}
          for n in ((1, 2, 6) if tier == 'quick' else (1, 2, 3, 6, 12, 27))]
    cs.append({'id': 'same', 'k': 'same', 'n': 3})
    cs.append({'id': 'compose', 'k': 'two', 'n': 2})
    cs.append({'id': 'inverse', 'k': 'inv', 'n': 2})
    cs += [{'id': 'grab-' + w, 'k': 'grab', 'w': w}
           for w in ('inside', 'stored', 'lone')]
    return cs


def quotient(S, a, b):
    """The functional equation of the logarithm for one pair."""
    x, y, z, w = slog(a), slog(b), slog(a / b), slog(b / a)
    if S.sym:
        S.assume(sand(z == x - y, w == y - x))


def harness(S, case):
    dt, plat, gt = mods(S)
    corr = dt.gfunction.GFunction.borehole_radius_correction
    k = case['k']
    if k == 'grab':
        import numpy
        np = dt.ground_heat_exchangers.np
        H = [96.] if case['w'] == 'lone' else [60., 120.]
        rb = {h: S.real('rb%g' % h, 0.01, 0.5) for h in H}
        g = {h: [S.real('g%g_%d' % (h, i), -5, 60) for i in range(2)]
             for h in H}
        if case['w'] == 'inside':
            h = S.choice('height', [75., 90., 110.])
        else:
            h = H[0]
        r = S.real('r_b', 0.01, 0.5)
        B = 5.
        G = dt.gfunction.GFunction(
            B=B, r_b_values=dict(rb), D_values={v: 2. for v in H},
            g_lts=g, log_time=[-8.5, 3.], bore_locations=[(0., 0.)])
        ghe = types.SimpleNamespace()
        ghe.GFunction = G
        ghe.B_spacing = B
        ghe.bhe = types.SimpleNamespace(b=types.SimpleNamespace(
            r_b=r, H=h, D=2.))
        # the equivalent borehole of a crowded one is wider
        ghe.bhe_eq = types.SimpleNamespace(b=types.SimpleNamespace(
            r_b=r + S.real('wider', 0., .1), H=h, D=2.))
        sts = [S.real('s%d' % i, -5, 5) for i in range(2)]
        ghe.radial_numerical = types.SimpleNamespace(
            lntts=np.array([-40., -9.]), g=np.array(sts))
        ghe = built_ghe(S, dt, plat, ghe)
        w = (h - H[0]) / 60.
        mix = {}
        for n, d in (('rb', rb), ('g0', {v: g[v][0] for v in H}),
                     ('g1', {v: g[v][1] for v in H})):
            mix[n] = d[H[0]] + (0. if len(H) == 1 else
                                (d[H[1]] - d[H[0]]) * w)
        quotient(S, r, mix['rb'])
        f = ghe.grab_g_function(B / h)
        x = [scalar(v) for v in f.x]
        y = [scalar(v) for v in f.y]
        S.prove('short and long times are joined', len(x) == 4 and all(
            abs(a - b) <= 1e-9 for a, b in zip(x, [-40., -9., -8.5, 3.])))
        c = slog(r) - slog(mix['rb'])
        S.prove('the short-time response is used as it is', sand(
            [abs(a - b) <= 1e-9 for a, b in zip(y[:2], sts)]))
        S.prove('the long-time response is that of the height, corrected to '
                'the radius of the borehole', sand(
                    [abs(a - (b - c)) <= 1e-6
                     for a, b in zip(y[2:], (mix['g0'], mix['g1']))]), y)
        return
    n = case['n']
    g = [S.real('g%d' % i, -10, 80) for i in range(n)]
    r = [S.real('r%d' % i, 1e-3, 1) for i in range(3 if k == 'two' else 2)]
    before = list(g)
    quotient(S, r[1], r[0])
    if k == 'same':
        out = [scalar(v) for v in corr(g, r[0], r[0])]
        S.prove('correcting to the same radius changes nothing', sand(
            [len(out) == n] + [abs(a - b) <= 1e-9 for a, b in zip(out, g)]))
        return
    out = [scalar(v) for v in corr(g, r[0], r[1])]
    c = slog(r[1]) - slog(r[0])
    S.prove('one value per time', len(out) == n)
    S.prove('ln(r/r*) is subtracted from every value', sand(
        [abs(a - (b - c)) <= 1e-6 for a, b in zip(out, before)]), out)
    S.prove('a larger radius lowers the response', sand(
        simplies(r[1] > r[0], sand([a <= b for a, b in zip(out, before)])),
        simplies(r[1] < r[0], sand([a >= b for a, b in zip(out, before)]))))
    S.prove('the curve given is left unchanged', all(
        a is b for a, b in zip(g, before)) and len(g) == n)
    if k == 'two':
        quotient(S, r[2], r[1])
        quotient(S, r[2], r[0])
        a = [scalar(v) for v in corr(out, r[1], r[2])]
        b = [scalar(v) for v in corr(g, r[0], r[2])]
        S.prove('corrections compose', sand(
            [abs(x - y) <= 1e-6 for x, y in zip(a, b)]))
    if k == 'inv':
        a = [scalar(v) for v in corr(out, r[1], r[0])]
        S.prove('the inverse correction restores the curve', sand(
            [abs(x - y) <= 1e-6 for x, y in zip(a, before)]))
