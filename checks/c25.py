"""C25 / loading a g-function database entry."""
from checks.env import *

BOUNDS = ('entries of one to three (five thorough) heights in any order, '
          'arbitrary spacing, radii, burial depths and two values per curve, '
          'up to three boreholes; keys with and without burial depth')
ASSUMPTIONS = ['numbers survive formatting into a key (Python prints floats '
               'exactly)', 'heights of an entry differ by at least one metre']
ORDERS = {1: [(0,)], 2: [(0, 1), (1, 0)],
          3: [(0, 1, 2), (2, 1, 0), (1, 2, 0), (2, 0, 1)],
          5: [(4, 2, 0, 1, 3), (0, 1, 2, 3, 4)]}


def cases(tier):
    cs = []
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 5):
        for i, o in enumerate(ORDERS[n]):
            for d in (True, False):
                cs.append({'id': '%d-%d-%s' % (n, i, 'D' if d else 'noD'),
                           'order': o, 'D': d})
            if i == 0:
                cs.append({'id': '%d-%d-anyH' % (n, i), 'order': o, 'D': True,
                           'any': True})
        cs.append({'id': '%d-live' % n, 'order': ORDERS[n][-1], 'D': True,
                   'live': True})
    return cs


def harness(S, case):
    dt, plat, gt = mods(S)
    n = len(case['order'])
    B = S.real('B', 0.5, 20)
    base = [24., 60.5, 96.25, 192., 384.]
    hs = [base[i] for i in range(n)]
    if case.get('any'):
        hs = [h + S.real('H%d' % i, 0, 0.375) for i, h in enumerate(hs)]
    rbs = [S.real('rb%d' % i, 0.01, 0.5) for i in range(n)]
    Ds = [S.real('D%d' % i, 0, 20) for i in range(n)]
    g = [[S.real('g%d_%d' % (i, j), -10, 80) for j in range(2)]
         for i in range(n)]
    locs = [[S.real('x%d' % i, -50, 50), S.real('y%d' % i, -50, 50)]
            for i in range(3)]
    lt = [-8.5, 3.003]
    if case.get('live'):
        calls = []

        def calc(*a, **k):
            p = bind(real, a, k)
            calls.append(p)
            i = len(calls) - 1
            j = case['order'][i]
            import numpy as np
            b = p['borehole']
            S.prove('each curve is computed for its own height, radius and '
                    'depth', sand(b.H == hs[j], b.r_b == rbs[j],
                                  b.D == Ds[j]))
            S.prove('each curve is computed for the field given',
                    p['coordinates'] is locs or p['coordinates'] == locs)
            al = m.soil.k / m.soil.rhoCp
            import math
            S.prove('times follow the characteristic time of the height',
                    all(abs(float(t) / (math.exp(x) * hs[j] ** 2 /
                                        (9. * al)) - 1.) <= 1e-9
                        for t, x in zip(p['time_values'], lt)) and
                    len(p['time_values']) == 2)
            S.prove('each curve is computed for the flow given',
                    p['m_flow_borehole'] == mf)
            S.prove('each curve is computed for the media given', all(
                p[q] is getattr(m, q) for q in ('fluid', 'pipe', 'grout',
                                                'soil')) and
                p['bhe_object'] is plat.borehole_heat_exchangers.SingleUTube)
            return types.SimpleNamespace(
                gFunc=dt.gfunction.np.array(g[j]))
        real = dt.gfunction.calculate_g_function
        S.patch(dt.gfunction, 'calculate_g_function', calc)
        m = media(S, dt, plat, gt)
        mf = S.real('m_flow', 0.01, 5)
        o = case['order']
        G = dt.gfunction.compute_live_g_function(
            B, [hs[i] for i in o], [rbs[i] for i in o], [Ds[i] for i in o],
            mf, plat.borehole_heat_exchangers.SingleUTube,
            dt.gfunction.np.array(lt), locs, m.fluid, m.pipe, m.grout, m.soil)
        S.prove('one curve is computed for every height', len(calls) == n)
    else:
        data = {'bore_locations': locs, 'logtime': lt, 'g': {}}
        for i in case['order']:
            parts = [B, hs[i], rbs[i]] + ([Ds[i]] if case['D'] else [])
            key = '_'.join('{}'.format(v) for v in parts)
            data['g'][key] = g[i]
        keys = list(data['g'])
        d = dt.gfunction.GFunction.configure_database_file_for_usage(data)
        G = dt.gfunction.GFunction(**d)
        S.prove('the entry is left unchanged', list(data['g']) == keys and
                data['bore_locations'] is locs)
    S.prove('the spacing is kept', G.B == B)
    S.prove('every height of the entry is kept, in increasing order',
            len(G.g_lts) == n and
            sand([a == b for a, b in zip(list(G.g_lts), hs)]),
            list(G.g_lts))
    for i, h in enumerate(hs):
        c = list(G.g_lts[h])
        S.prove('the curve of each height is kept', sand(
            [len(c) == 2] + [a == b for a, b in zip(c, g[i])]))
        S.prove('the radius of each height is kept', G.r_b_values[h] == rbs[i])
        S.prove('the burial depth of each height is kept',
                G.D_values[h] == (Ds[i] if case['D'] else 2.))
    S.prove('times are kept', [float(v) for v in G.log_time] == lt)
    S.prove('borehole locations are kept', len(G.bore_locations) == 3 and all(
        a is b for p, q in zip(G.bore_locations, locs)
        for a, b in zip(p, q)))
