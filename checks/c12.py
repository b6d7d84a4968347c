"""C12 / exchanging the sides of the land transposes the domain."""
from checks.dom import *

BOUNDS = ('two different land sides and spacing limits arbitrary reals, at '
          'most 4 (quick) / 6 (thorough) minimum spacings along the long side')
ASSUMPTIONS = ['the spacing limits admit a whole number of spacings per side']


def cases(tier):
    n = 4 if tier == 'quick' else 6
    cs = []
    for k in range(2, n + 1):
        cs.append({'id': 'rectangle-%d' % k, 'kind': 'rect', 'n': k})
        cs.append({'id': 'birectangle-%d' % k, 'kind': 'bi', 'n': k})
        if k >= 3 and k <= 5:
            for k2 in range(2, k):
                cs.append({'id': 'bizoned-%d-%d' % (k, k2), 'kind': 'bz',
                           'n': k, 'n2': k2})
    return cs


def harness(S, case):
    dt, plat, gt = mods(S)
    n = case['n']
    bmin = S.real('B_min', 1, 20)
    b1 = S.real('B_max_1', 1, 60)
    b2 = S.real('B_max_2', 1, 60)
    S.assume(sand(b1 >= bmin, b2 >= bmin))
    L1 = S.real('long', 1, 400)
    L2 = S.real('short', 1, 400)
    S.assume(sand(L1 >= bmin * (n - 1), L1 <= bmin * n, L2 < L1))
    if case['kind'] == 'rect':
        a = [dt.domains.rectangular(L1, L2, bmin, b1)]
        b = [dt.domains.rectangular(L2, L1, bmin, b1)]
    else:
        k2 = n
        if case['kind'] == 'bz':
            k2 = case['n2']
            S.assume(sand(L2 >= bmin * k2, L2 <= bmin * (k2 + 1),
                          L1 > b1 * 1.000001, L2 > b2 * 1.000001))
        for L, bm, k in ((L1, b1, n), (L2, b2, k2)):
            S.assume(sor([sand(L >= i * bmin * (1 + 1e-6),
                               L <= i * bm * (1 - 1e-6))
                          for i in range(2 if case['kind'] == 'bz' else 1,
                                         k + 2)]))
        f = dt.domains.bi_rectangle_nested if case['kind'] == 'bi' else \
            dt.domains.bi_rectangle_zoned_nested
        a = f(L1, L2, bmin, b1, b2)
        b = f(L2, L1, bmin, b2, b1)
    S.observe('domains', len(a))
    S.prove('as many domains', len(a) == len(b), (len(a), len(b)))
    for d1, d2 in zip(a, b):
        S.prove('as many fields', len(d1) == len(d2), (len(d1), len(d2)))
        for f1, f2 in zip(d1, d2):
            prove_same(S, 'each field is the transposed field', f2,
                       [(p[1], p[0]) for p in f1])
            if len(f1) > 1:
                # what spacing the field counts as having
                bh = types.SimpleNamespace(r_b=0.075)
                S.eq('the spacing of the field is the same',
                     dt.utilities.borehole_spacing(bh, f1),
                     dt.utilities.borehole_spacing(bh, f2))
