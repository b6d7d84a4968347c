"""C38 / the spacing of a field and its rescaling."""
from checks.env import *

BOUNDS = ('fields of 1 to 5 (8 thorough) boreholes at arbitrary places '
          'within 1 km, spacings of 0.5 to 50 m, radii of 0.01 to 1 m, domains '
          'of up to 6 (10) excess temperatures')
ASSUMPTIONS = []


def cases(tier):
    ns = (1, 2, 3, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 8)
    cs = [{'id': 'scale-%d' % n, 'k': 'scale', 'n': n} for n in ns]
    cs += [{'id': 'grid-%d' % n, 'k': 'grid', 'n': n} for n in (2, 3)]
    cs += [{'id': 'spacing-%d' % n, 'k': 'spacing', 'n': n}
           for n in (1, 2, 5)]
    cs += [{'id': 'excess-%d' % n, 'k': 'excess', 'n': n}
           for n in ((1, 2, 4, 6) if tier == 'quick' else
                     (1, 2, 3, 4, 5, 6, 8, 10))]
    return cs


def gfun(dt, B, coords):
    G = dt.gfunction.GFunction
    return G(B, {96.: 0.075}, {96.: 2.}, {96.: [1., 2.]}, [-8., 3.], coords)


def harness(S, case):
    dt, plat, gt = mods(S)
    k, n = case['k'], case['n']
    if k == 'excess':
        e = S.reals('e', n, -50, 50)
        d, uni = dt.domains.verify_excess(list(e))
        S.prove('one difference between neighbours', len(d) == n - 1)
        S.prove('the differences', sand(
            [abs(v - (b - a)) <= 1e-9 for v, a, b in zip(d, e, e[1:])]))
        never = sand([b <= a for a, b in zip(e, e[1:])])
        S.prove('a domain passes if its excess never rises',
                never if uni else snot(never), uni)
        return
    if k == 'spacing':
        rb = S.real('r_b', 0.01, 1)
        c = [(S.real('x%d' % i, -500, 500), S.real('y%d' % i, -500, 500))
             for i in range(n)]
        b = gt.boreholes.Borehole(96., 2., rb, 0., 0.)
        B = scalar(dt.utilities.borehole_spacing(b, c))
        if n == 1:
            S.prove('one borehole: its radius', abs(B - rb) <= 1e-12)
            return
        q = (c[1][0] - c[0][0]) ** 2 + (c[1][1] - c[0][1]) ** 2
        S.prove('never less than the radius', B >= rb - 1e-12)
        S.prove('the distance of the first two boreholes',
                sor(abs(B * B - q) <= 1e-6,
                    sand(q <= rb * rb + 1e-9, abs(B - rb) <= 1e-9)), (B, q))
        return
    B0, B = S.real('B0', 0.5, 50), S.real('B', 0.5, 50)
    if k == 'grid':
        c = [(i * B0, j * B0) for i in range(n) for j in range(n)]
    else:
        c = [(S.real('x%d' % i, -500, 500), S.real('y%d' % i, -500, 500))
             for i in range(n)]
        if n > 2:
            # boreholes on the axes and in the origin
            c[0], c[1] = (0., 0.), (0., c[1][1])
            c[2] = (c[2][0], 0.)
    keep = list(c)
    G = gfun(dt, B0, c)
    out = [(scalar(p[0]), scalar(p[1])) for p in G.correct_coordinates(B)]
    S.prove('no borehole is lost', len(out) == len(c))
    S.prove('every place is scaled by the ratio of the spacings', sand(
        [sand(abs(o[0] * B0 - p[0] * B) <= 1e-6,
              abs(o[1] * B0 - p[1] * B) <= 1e-6) for o, p in zip(out, c)]))
    S.prove('the stored field is left as it was', sand(
        [sand(p[0] == q[0], p[1] == q[1])
         for p, q in zip(G.bore_locations, keep)]))
    if k == 'grid':
        b = gt.boreholes.Borehole(96., 2., 0.01, 0., 0.)
        s = scalar(dt.utilities.borehole_spacing(b, out))
        S.prove('the new field has the new spacing', abs(s - B) <= 1e-6,
                (s, B))
    S.observe('first', out[-1][0])
