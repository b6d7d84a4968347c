"""C35 / the exported design document."""
from checks.env import *

BOUNDS = ('one stored height or three, 1 to 200 (1500 thorough) short-time '
          'values, 27 long-time values; g-function values of the first and '
          'last short and of every long time free, heights, radii, spacing, '
          'flow and conductivities free')
ASSUMPTIONS = []
LTS = [-8.5, -7.8, -7.2, -6.5, -5.9, -5.2, -4.5, -3.963, -3.27, -2.864,
       -2.577, -2.171, -1.884, -1.191, -0.497, -0.274, -0.051, 0.196, 0.419,
       0.642, 0.873, 1.112, 1.335, 1.679, 2.028, 2.275, 3.003]


def cases(tier):
    ns = (1, 7, 29, 30, 31, 59, 60, 75, 200, 700) if tier == 'quick' else (
        1, 2, 7, 15, 29, 30, 31, 32, 45, 59, 60, 61, 75, 89, 90, 91, 200, 500,
        1500)
    cs = [{'id': 'short-%d' % n, 'n': n, 'nb': 1 + n % 4} for n in ns]
    cs += [{'id': 'later-%d' % n, 'n': n, 'nb': 2, 'over': 5}
           for n in (40, 100)]
    return cs


def harness(S, case):
    dt, plat, gt = mods(S)
    np = dt.ground_heat_exchangers.np
    n, over = case['n'], case.get('over', 0)
    H = S.real('H', 20, 300)
    B = S.real('B', 2, 12)
    rb = S.real('r_b', 0.03, 0.2)
    g_l = S.reals('g', 27, -5, 60)
    # short times end before the first long time, or run past it
    x_s = [-40. + 31. * i / max(n - 1, 1) for i in range(n)]
    x_s += [-8.4 + i * 0.1 for i in range(over)]
    y_s = [S.real('s%d' % i, -8, 8) if i < 3 or i >= n - 3 else 0.001 * i
           for i in range(n + over)]
    ghe = types.SimpleNamespace()
    coords = [(5. * i, 0.) for i in range(case['nb'])]
    ghe.GFunction = types.SimpleNamespace(
        log_time=list(LTS), bore_locations=coords,
        g_function_interpolation=lambda B_over_H, kind='default': (
            S.prove('the g-function is that of the spacing and height',
                    abs(B_over_H * H - B) <= 1e-9 * 300, (B_over_H, B, H)),
            (list(g_l), rb, 2., H))[1],
        borehole_radius_correction=lambda g_function, rb, rb_star:
        list(g_function))
    ghe.B_spacing = B
    ghe.bhe = types.SimpleNamespace(b=types.SimpleNamespace(
        H=H, r_b=rb, D=2.))
    ghe.radial_numerical = types.SimpleNamespace(lntts=np.array(x_s),
                                                 g=np.array(y_s))
    v = {k: S.real(k, lo, hi) for k, lo, hi in (
        ('req_b', .03, .2), ('r_in', .005, .05), ('r_out', .006, .06),
        ('s', 0, .2), ('m', .01, 5), ('k_g', .1, 5), ('k_s', .1, 6),
        ('k_p', .1, 100))}
    pos = [(-0.02, 0.), (0.02, 0.)]
    ghe.bhe_eq = types.SimpleNamespace(
        borehole=types.SimpleNamespace(r_b=v['req_b'], H=H, D=2.),
        b=types.SimpleNamespace(r_b=v['req_b'], H=H, D=2.),
        r_in=v['r_in'], r_out=v['r_out'], pos=pos,
        pipe=types.SimpleNamespace(s=v['s'], k=v['k_p'], pos=pos,
                                   r_in=v['r_in'], r_out=v['r_out']),
        m_flow_borehole=v['m'],
        grout=types.SimpleNamespace(k=v['k_g']), k_g=v['k_g'],
        k_s=v['k_s'], soil=types.SimpleNamespace(k=v['k_s']))
    ghe = built_ghe(S, dt, plat, ghe)
    search = types.SimpleNamespace(ghe=ghe, selected_coordinates=coords)
    out = []
    S.patch(dt.utilities, 'js_dump',
            lambda *a, **k: out.append((a, k)))
    dt.search_routines.oak_ridge_export(search, file_name='some_name')
    S.prove('one document is written', len(out) == 1)
    a, k = out[0]
    a = list(a)
    S.prove('under the name given',
            (k.get('file_name') or a[0]) == 'some_name')
    d = k['d'] if 'd' in k else a[1]
    S.prove('the height', abs(d['borehole_length'] - H) <= 1e-12)
    S.prove('the number of boreholes',
            d['number_of_boreholes'] == case['nb'])
    u = d['single_u_tube']
    for name, w in (('r_b', v['req_b']), ('r_in', v['r_in']),
                    ('r_out', v['r_out']), ('s', v['s']),
                    ('m_flow_borehole', v['m']), ('k_g', v['k_g']),
                    ('k_s', v['k_s']), ('k_p', v['k_p'])):
        S.prove('the equivalent exchanger', abs(u[name] - w) <= 1e-12,
                (name, u[name], w))
    S.prove('the pipe positions', [tuple(p) for p in u['pos']] == pos)
    pairs = [(scalar(p['ln_tts']), scalar(p['g_value']))
             for p in d['g_function_pairs']]
    xs = x_s[:n] + LTS
    ys = y_s[:n] + g_l
    ts = [float(p[0]) for p in pairs]
    S.prove('times increase strictly',
            all(b > a for a, b in zip(ts, ts[1:])))
    idx = []
    for t in ts:
        j = min(range(len(xs)), key=lambda i: abs(xs[i] - t))
        S.prove('every time is one of the g-function',
                abs(xs[j] - t) <= 1e-9, (t,))
        idx.append(j)
    S.prove('every value is the one of its time', sand(
        [abs(p[1] - ys[j]) <= 1e-9 for p, j in zip(pairs, idx)]))
    S.prove('all long times are there', set(range(n, n + 27)) <= set(idx))
    S.prove('enough of the short times are there',
            len(idx) - 27 >= min(n - 1, 30), (n, len(idx) - 27))
