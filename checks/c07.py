"""C07 / near-square domains."""
from checks.dom import *

BOUNDS = ('bounds 1 <= lower <= upper <= 4 (quick) / 7 (thorough), spacing any '
          'positive real; one domain of large fields (24, 36 thorough) and the counts of fields about 100 by 100; invalid bounds from -1; near-square designs on lands '
          'of up to 5 / 8 spacings')
ASSUMPTIONS = []


def cases(tier):
    n = 4 if tier == 'quick' else 7
    cs = [{'id': 'domain', 'kind': 'domain', 'n': n},
          {'id': 'refuse', 'kind': 'refuse', 'n': 3},
          {'id': 'high', 'kind': 'domain', 'n': n + 6, 'lo': n + 3}]
    big = 24 if tier == 'quick' else 36
    cs.append({'id': 'large', 'kind': 'large', 'n': big})
    cs.append({'id': 'hundreds', 'kind': 'hundreds'})
    cs.append({'id': 'design', 'kind': 'design', 'n': 5 if tier == 'quick'
               else 8})
    return cs


def check_domain(S, dom, lo, hi, B):
    S.prove('two fields per size', len(dom) == 2 * (hi - lo + 1))
    k = 0
    last = 0
    for n in range(lo, hi + 1):
        for m in (n, n + 1):
            lat = Lattice(S, dom[k])
            k += 1
            S.prove('fields are n by n and n by n+1',
                    lat.full() and (lat.nx, lat.ny) == (n, m),
                    (n, m, lat.nx, lat.ny))
            S.prove('boreholes are one spacing apart', sand(
                [abs(g - B) <= TOL for g in gaps(lat.xs) + gaps(lat.ys)] +
                [True]))
            S.prove('the count increases', len(dom[k - 1]) > last)
            last = len(dom[k - 1])
            if S.sym is False or k <= 4:
                S.observe('n%d' % k, len(dom[k - 1]))


def harness(S, case):
    dt, plat, gt = mods(S)
    if case['kind'] == 'refuse':
        lo, hi = S.int('lower', -1, 3), S.int('upper', -1, 3)
        try:
            dt.domains.square_and_near_square(lo, hi, 5.)
            ok = True
        except ValueError:
            ok = False
        S.prove('bounds are refused exactly when invalid',
                ok == (lo >= 1 and hi >= lo), (lo, hi))
        return
    B = S.real('B', 0.5, 50)
    if case['kind'] == 'domain':
        l0 = case.get('lo', 1)
        lo = S.int('lower', l0, case['n'])
        hi = S.int('upper', l0, case['n'])
        if hi < lo:
            return
        check_domain(S, dt.domains.square_and_near_square(lo, hi, B), lo, hi,
                     B)
        return
    if case['kind'] == 'large':
        lo, hi = case['n'] - 3, case['n']
        check_domain(S, dt.domains.square_and_near_square(lo, hi, B), lo, hi,
                     B)
        dom = dt.domains.square_and_near_square(1, hi, B)
        S.prove('the counts are those of squares and near squares',
                [len(f) for f in dom] ==
                [n * m for n in range(1, hi + 1) for m in (n, n + 1)])
        return
    if case['kind'] == 'hundreds':
        lo = S.int('lower', 99, 101)
        hi = S.int('upper', 99, 101)
        if lo <= hi:
            dom = dt.domains.square_and_near_square(lo, hi, 5.)
            S.prove('the counts are those of squares and near squares',
                    [len(f) for f in dom] ==
                    [n * m for n in range(lo, hi + 1) for m in (n, n + 1)],
                    (lo, hi))
        return
    # the design builds the domain from the side length
    L = S.real('length', 0.5, 500)
    S.assume(L <= case['n'] * B)
    S.assume(L >= B)
    m = media(S, dt, plat, gt)
    sp = plat.media.SimulationParameters(1, 240, 35., 5., 135., 60.)
    geo = dt.media.GeometricConstraints(B=B, length=L)
    d = dt.design.Design(
        0.2, m.borehole, plat.borehole_heat_exchangers.SingleUTube, m.fluid,
        m.pipe, m.grout, m.soil, sp, geo, m.loads, flow='borehole',
        routine='near-square')
    dom = d.coordinates_domain
    n = len(dom) // 2
    S.observe('fields', len(dom))
    S.prove('the largest square is the largest that fits the side',
            sand((n - 1) * B <= L * (1 + TOL) + TOL, n * B >= L * (1 - TOL) -
                 TOL), (n, B, L))
    check_domain(S, dom, 1, n, B)
