"""C26 / joining the short- and the long-time g-function."""
from checks.env import *

BOUNDS = ('any increasing time axes and curves of up to 4 short and 3 long '
          'values (7 and 5 thorough), or of 900 and 27 values on fixed axes, '
          'disjoint, overlapping or touching')
ASSUMPTIONS = ['short and long times are each strictly increasing; short '
               'times may lie on either side of the first long one']


def cases(tier):
    cs = []
    for n in ((1, 2, 4) if tier == 'quick' else (1, 2, 3, 5, 7)):
        for m in ((1, 3) if tier == 'quick' else (1, 2, 5)):
            if n + m > 2:
                cs.append({'id': '%d-%d' % (n, m), 'n': n, 'm': m})
    for n, m in ((4, 3), (3, 2)):
        for i in range(n):
            cs.append({'id': 'touch-%d-%d-%d' % (n, m, i), 'n': n, 'm': m,
                       'touch': i})
    for n, m in ((900, 27),) if tier == 'quick' else ((900, 27), (2500, 76)):
        cs.append({'id': 'long-%d-%d' % (n, m), 'n': n, 'm': m, 'long': True})
    return cs


def harness(S, case):
    dt, plat, gt = mods(S)
    n, m = case['n'], case['m']

    def axis(tag, k):
        out = [S.real('%s0' % tag, -30, 3)]
        for i in range(1, k):
            out.append(out[-1] + S.real('%s%d' % (tag, i), 0.05, 3))
        return out
    if case.get('long'):
        # fixed evenly spaced axes that meet at a free place
        d = S.choice('overlap', [-3., 0.5, 5.5, 170.25, 500.1])
        ts = [-25. + 0.015 * i for i in range(n)]
        tl = [ts[-1] - 0.015 * d + 0.4 * i for i in range(m)]
    else:
        ts, tl = axis('ts', n), axis('tl', m)
    if case.get('touch') is not None:
        d = tl[0] - ts[case['touch']]
        ts = [t + d for t in ts]
        ts[case['touch']] = tl[0]
        # keep the axis increasing in floats
        S.assume(sand([a < b for a, b in zip(ts, ts[1:])]))
    else:
        S.assume(sand([sor(t == tl[0], t <= tl[0] - 1e-6, t >= tl[0] + 1e-6)
                       for t in ts]))
    gs = [S.real('gs%d' % i, -5, 10) for i in range(n)]
    gl = [S.real('gl%d' % i, -5, 80) for i in range(m)]
    args = [list(tl), list(gl), list(ts), list(gs)]
    f = dt.ground_heat_exchangers.BaseGHE.combine_sts_lts(*args)
    S.prove('the curves given are left unchanged', all(
        len(a) == len(b) and all(x is y for x, y in zip(a, b))
        for a, b in zip(args, (tl, gl, ts, gs))))
    x = [scalar(v) for v in f.x]
    y = [scalar(v) for v in f.y]
    S.prove('times are strictly increasing', sand(
        [a < b for a, b in zip(x, x[1:])]), x)
    k = len(x) - m
    S.prove('every long-time value is kept', k >= 0 and sand(
        [sand(a == b, c == d) for a, b, c, d in
         zip(x[k:], tl, y[k:], gl)]), x)
    S.prove('no short-time value is invented', k <= n and sand(
        [sand(a == b, c == d) for a, b, c, d in
         zip(x[:k], ts[:k], y[:k], gs[:k])]), x)
    S.prove('exactly the short times before the first long one are kept',
            sand([t < tl[0] for t in ts[:k]] + [t >= tl[0] for t in ts[k:]]),
            (k, ts, tl[0]))
    S.observe('k', k)
    # the joined curve at a stored time
    i = S.choice('at', [0, m // 2, m - 1]) if case.get('long') else \
        S.int('at', 0, m - 1)
    v = scalar(f(tl[i]))
    S.prove('the joined curve passes through the long-time values',
            abs(v - gl[i]) <= 1e-6)
