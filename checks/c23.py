"""C23 / interpolation between stored g-functions."""
from checks.env import *
import warnings

SETS = {'one': [96.], 'two': [60., 135.], 'three': [24., 96., 384.],
        'close': [59.5, 59.75, 60.25], 'four': [24., 48., 96., 192.],
        'five': [24., 48., 96., 192., 384.]}
BOUNDS = ('sets of one to five stored heights (six sets) with two arbitrary '
          'values per curve and arbitrary radii and burial depths, spacing 5; '
          '(five curves: unit lines only); any queried height from half the smallest to twice the largest; '
          'histories of two queries of any two kinds; curves of 31 values, eight '
          'of them free, that vary linearly with the height')
ASSUMPTIONS = ['scipy splines are linear in the stored values (weights '
               'taken from scipy for the stored heights)']
KINDS = ('default', 'linear', 'quadratic', 'cubic', 'lagrange')


def cases(tier):
    cs = []
    for s in SETS:
        cs.append({'id': 'stored-' + s, 'k': 'stored', 's': s})
        if s == 'one':
            cs.append({'id': 'lone', 'k': 'lone', 's': s})
            continue
        kk = KINDS if tier != 'quick' else ('default', 'linear', 'lagrange')
        for kind in kk:
            cs.append({'id': 'poly-%s-%s' % (s, kind), 'k': 'poly', 's': s,
                       'kind': kind})
        cs.append({'id': 'long-' + s, 'k': 'long', 's': s})
        cs.append({'id': 'between-' + s, 'k': 'between', 's': s})
        hist = [('default', 'default'), ('linear', 'default'),
                ('default', 'linear'), ('lagrange', 'default')]
        if tier != 'quick':
            hist = [(a, b) for a in KINDS for b in KINDS]
        for a, b in hist:
            for where in ('in', 'out'):
                cs.append({'id': 'history-%s-%s-%s-%s' % (s, a, b, where),
                           'k': 'history', 's': s, 'kinds': (a, b),
                           'where': where})
    return cs


def long(S, dt, H, nt=31):
    """Curves of many values, below zero at first: every value has its own
    place, and asking changes none of them."""
    logt = [-8.5 + .4 * i for i in range(nt)]
    free = (0, 1, 24, 25, 26, 27, 29, 30)
    a, b = {}, {}
    for i in range(nt):
        a[i] = S.real('a%d' % i, -10, 50) if i in free else .5 * i - 3.
        b[i] = S.real('b%d' % i, -5, 5) if i in free else .01 * i
    g_lts = {h: [a[i] + b[i] * (h / 100.) for i in range(nt)] for h in H}
    was = {h: list(v) for h, v in g_lts.items()}
    g = dt.gfunction.GFunction(
        B=5., r_b_values={h: .075 for h in H}, D_values={h: 2. for h in H},
        g_lts=g_lts, log_time=list(logt), bore_locations=[(0., 0.)])
    for h in (H[0] * .3 + H[1] * .7, H[1], H[-1]):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            q = g.g_function_interpolation(5. / h, kind='linear')
        c = [scalar(v) for v in q[0]]
        S.prove('one value for every time', len(c) == nt)
        S.prove('every value of a curve is interpolated for its own time',
                sand([sabs(c[i] - (a[i] + b[i] * (h / 100.))) <=
                      (1e-4 if S.sym else 1e-2) for i in range(nt)]), h)
        S.prove('the stored curves stay as they were', sand(
            [sabs(x - y) <= 1e-9 for h_ in H
             for x, y in zip(g.g_lts[h_], was[h_])] +
            [sabs(x - y) <= 1e-9 for x, y in zip(g.log_time, logt)]))


def harness(S, case):
    dt, plat, gt = mods(S)
    H = SETS[case['s']]
    B = 5.
    nt = 2
    k = case['k']
    if k == 'long':
        return long(S, dt, H)
    coef = None
    if k == 'poly':
        # data on a line are reproduced by any kind of interpolation
        if len(H) < 5:
            coef = [(S.real('a%d' % i, -10, 50), S.real('b%d' % i, -5, 5))
                    for i in range(nt + 2)]
        else:
            # cubics: one unit line after the other
            u = S.choice('unit', [(10., 0.), (0., 5.)])
            coef = [u, (0., 0.), (-2. * u[0], u[1]), (1., 2.)]

    def row(j):
        if coef:
            return {h: coef[j][0] + coef[j][1] * (h / 100.) for h in H}
        lo, hi = ((-10, 80), (-10, 80), (0.01, 0.5), (0, 20))[j]
        return {h: S.real('v%d_%g' % (j, h), lo, hi) for h in H}
    rows = [row(j) for j in range(nt + 2)]
    curves = {h: [rows[j][h] for j in range(nt)] for h in H}
    rb, D = rows[nt], rows[nt + 1]

    def fresh():
        return dt.gfunction.GFunction(
            B=B, r_b_values=dict(rb), D_values=dict(D),
            g_lts={h: list(curves[h]) for h in
                   (reversed(H) if case['s'] == 'three' else H)},
            log_time=[-8.5, 3.], bore_locations=[(0., 0.), (5., 0.)])

    def query(g, h, kind='default'):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c, r, d, heq = g.g_function_interpolation(B / h, kind=kind)
        return [scalar(v) for v in c], scalar(r), scalar(d), scalar(heq)

    def same(label, a, b, tol=1e-6):
        S.prove(label, len(a[0]) == len(b[0]))
        S.prove(label, sand([abs(x - y) <= tol for x, y in
                             zip(a[0] + [a[1], a[2]], b[0] + [b[1], b[2]])]),
                (a, b))
    if k == 'stored':
        g = fresh()
        for h in H:
            q = query(g, h)
            same('a stored curve is returned at its own ratio', q,
                 (curves[h], rb[h], D[h]))
            S.prove('the equivalent height is spacing over ratio',
                    abs(q[3] - h) <= 1e-6)
        return
    lo, hi = H[0] / 2., H[-1] * 2.
    if k == 'lone':
        h = S.real('H', lo, hi)
        g = fresh()
        try:
            q = query(g, h)
        except ValueError:
            S.prove('a lone curve is used at its own height',
                    abs(h - H[0]) >= 1e-6 * H[0], h)
            return
        S.prove('a lone curve is not used at other heights',
                abs(h - H[0]) <= 1.01e-3 * H[0], h)
        same('a lone curve is returned unchanged', q,
             (curves[H[0]], rb[H[0]], D[H[0]]))
        return
    if k == 'poly':
        h = S.real('H', lo, hi)
        q = query(fresh(), h, case['kind'])
        w = [a + b * (h / 100.) for a, b in coef]
        tol = 1e-4 if S.sym else 1e-2
        same('curves that vary linearly with the height stay on their line',
             q, (w[:nt], w[nt], w[nt + 1]), tol)
        S.prove('the equivalent height is spacing over ratio',
                abs(q[3] - h) <= 1e-5)
        return
    if k == 'between':
        h = S.real('H', H[0], H[-1])
        q = query(fresh(), h, 'linear')
        for a, b in zip(H, H[1:]):
            if sand(h >= a, h <= b):
                for i, v in enumerate(q[0] + [q[1], q[2]]):
                    y0 = (curves[a] + [rb[a], D[a]])[i]
                    y1 = (curves[b] + [rb[b], D[b]])[i]
                    S.prove('linear interpolation stays between its two '
                            'curves', sand(v >= smin(y0, y1) - 1e-4,
                                           v <= smax(y0, y1) + 1e-4))
                    S.prove('linear interpolation divides the two curves',
                            abs((v - y0) * (b - a) - (y1 - y0) * (h - a))
                            <= 1e-3 * (b - a))
                break
        return
    # history
    mid = (H[0] + H[1]) / 2.
    h1 = mid if case['where'] == 'in' else 1.5 * H[-1]
    g = fresh()
    a, b = case['kinds']
    query(g, h1, a)
    for h in (mid + 1e-2, H[0], H[-1], H[0] - 5e-4, H[0] * 0.75, H[-1] * 1.25):
        try:
            want = query(fresh(), h, b)
        except ValueError as e:
            S.fail('every height of two or more curves has a g-function',
                   (h, str(e)))
            return
        try:
            got = query(g, h, b)
        except ValueError as e:
            S.fail('an earlier query does not make a later one fail',
                   (h, str(e)))
            return
        same('an earlier query does not change a later one', got, want)
    if b in ('default', 'linear') and len(H) == 2 or b == 'linear':
        q = query(g, H[0] * 0.75, b)
        w = [y0 + (y1 - y0) * ((H[0] * 0.75 - H[0]) / (H[1] - H[0]))
             for y0, y1 in zip(curves[H[0]] + [rb[H[0]], D[H[0]]],
                               curves[H[1]] + [rb[H[1]], D[H[1]]])]
        same('extrapolation continues the nearest line', q,
             (w[:nt], w[nt], w[nt + 1]), 1e-3)
