"""C32 / the radial short-time borehole model."""
from checks.env import *
import math

BOUNDS = ('all cells of the model; three borehole geometries; conductivities, '
          'heat capacities, fluid, resistances, borehole height and far-field '
          'temperatures free; up to three (six thorough) time steps with the '
          'cell temperatures after every step free; the number of steps of the '
          'model\'s own time for heights of 110 and 350 m')
ASSUMPTIONS = ['the tridiagonal solver (LAPACK dgtsv) may return any '
               'temperatures: only the system handed to it is judged']
GEO = ((0.075, 0.0108, 0.013335), (0.05, 0.008, 0.01), (0.12, 0.02, 0.024))
DT = 120.


def cases(tier):
    cs = []
    for g in range(len(GEO)):
        for n in ((1, 3) if tier == 'quick' else (1, 2, 3, 6)):
            cs.append({'id': 'heat-%d-%d' % (g, n), 'k': 'step', 'g': g,
                       'n': n, 'free': 'c'})
        cs.append({'id': 'flow-%d' % g, 'k': 'step', 'g': g, 'n': 1,
                   'free': 'k'})
        cs.append({'id': 'cells-%d' % g, 'k': 'cells', 'g': g, 'n': 1})
    cs.append({'id': 'pipe-cells', 'k': 'pipe', 'g': 0, 'n': 1})
    cs.append({'id': 'scale', 'k': 'scale', 'g': 0, 'n': 1})
    cs.append({'id': 'times', 'k': 'times', 'g': 0, 'n': 1, 'free': ''})
    for w in ('again', 'same'):
        cs.append({'id': w, 'k': w, 'g': 0, 'n': 2, 'free': 'c'})
    for H in (110., 350.):
        cs.append({'id': 'whole-%d' % H, 'k': 'whole', 'g': 0, 'n': 1,
                   'free': '', 'H': H})
    return cs


def tube(S, g, tag='', free='ck', H=None):
    r_b, r_in, r_out = GEO[g]
    fix = {'k_s': 2.1, 'k_g': 1.2, 'k_p': .4, 'R_f': .011, 'R_p': .09,
           'Rb': .17, 'c_p': 1.5e6, 'c_g': 3.9e6, 'c_s': 2.3e6, 'rho': 998.,
           'cp': 4182.}

    def R(n, a, b):
        if n == 'H' and H is not None:
            return H
        kind = 'c' if n[0] == 'c' or n == 'rho' else 'k'
        if n != 'H' and kind not in free:
            return fix[n] * (1 + 0.3 * g)
        return S.real(n + tag, a, b)
    k_s, k_g, k_p = R('k_s', .2, 8), R('k_g', .2, 5), R('k_p', .1, 100)
    R_f, R_p = R('R_f', .001, .2), R('R_p', .001, .4)
    Rb = R('Rb', .02, 1)
    S.assume(Rb > R_f + .001)
    b = types.SimpleNamespace(r_b=r_b, H=R('H', 20, 400), D=2.)
    x = types.SimpleNamespace(
        b=b, borehole=b, R_f=R_f, R_p=R_p, R_fp=R_f + R_p, k_s=k_s, k_g=k_g,
        pipe=types.SimpleNamespace(r_in=r_in, r_out=r_out, k=k_p,
                                   rhoCp=R('c_p', 1e6, 5e6)),
        grout=types.SimpleNamespace(k=k_g, rhoCp=R('c_g', 1e6, 6e6)),
        soil=types.SimpleNamespace(k=k_s, rhoCp=R('c_s', 1e6, 4e6)),
        fluid=types.SimpleNamespace(rho=R('rho', 800, 1200),
                                    cp=R('cp', 2000, 4500), k=.6, mu=1e-3),
        r_in=r_in, r_out=r_out,
        m_flow_borehole=.3, compute_effective_borehole_resistance=lambda
        m_flow_borehole=None, fluid=None: Rb)
    return x, Rb


def near(a, b, tol=1e-9):
    return sand(a - b <= tol * sabs(b), b - a <= tol * sabs(b))


def harness(S, case):
    dt, plat, gt = mods(S)
    mod = plat.radial_numerical_borehole
    cls = mod.RadialNumericalBH
    np = mod.np
    x, Rb = tube(S, case['g'], free=case.get('free', 'ck'))
    r_b, r_in, r_out = GEO[case['g']]
    systems, cells, temps, count = [], [], [], [0]
    fill = cls.fill_radial_cell

    def keep(self, radial_cell, *a, **k):
        r = fill(self, radial_cell, *a, **k)
        cells.append([[scalar(v) for v in row] for row in
                      np.asarray(radial_cell).tolist()])
        return r
    S.patch(cls, 'fill_radial_cell', keep)

    def solver(dl, d, du, b, *a, **k):
        if case['k'] == 'whole':
            return du, d, du, b, 0
        systems.append([[scalar(v) for v in q] for q in (dl, d, du, b)])
        n = len(d)
        count[0] += 1
        # a few temperatures free, the others follow from them
        t = [S.real('T%d_%d' % (count[0], i), -50, 200) for i in range(6)]
        new = [t[i % 6] + 0.01 * i for i in range(n)]
        temps.append(new)
        for i in range(n):
            b[i] = new[i]
        return du, d, du, b, 0
    S.patch(mod, 'dgtsv', solver)
    m = cls(x)
    if case['k'] == 'scale':
        a = x.soil.k / x.soil.rhoCp
        ts = x.b.H * x.b.H / (9 * a)
        S.prove('the time scale is H^2 / 9 alpha', near(m.t_s, ts))
        w = ts * math.exp(-8.6)
        S.prove('the calculated time reaches the long-time values and 49 h',
                sand(m.calc_time_in_sec >= w * (1 - 1e-9),
                     m.calc_time_in_sec >= 49 * 3600.))
        S.prove('and no longer', sor(near(m.calc_time_in_sec, w),
                                     near(m.calc_time_in_sec, 49 * 3600.)))
        return
    if case['k'] == 'times':
        T = S.real('final', 240, 900)
        r = m.calc_sts_g_functions(x, final_time=T)
        k = len(r[0])
        S.prove('the steps reach the last step before the final time',
                sand((k - 1) * DT >= T - DT - 1e-6,
                     (k - 2) * DT <= T - DT + 1e-6), (k, T))
        return
    n = case['n']
    fin = DT * n
    if case['k'] == 'whole':
        # the time of the model itself, longer than 49 h
        x, Rb = tube(S, 0, '_whole', '', case['H'])
        r = m.calc_sts_g_functions(x)
        want = x.b.H ** 2 * x.soil.rhoCp / 9 / x.soil.k * math.exp(-8.6)
        S.prove('all steps of the calculated time are taken', abs(
            (len(r[0]) - 1) * DT - max(want, 49 * 3600.)) <= 2 * DT,
            (len(r[0]), want))
        S.prove('the last time is the end of the model', abs(
            float(r[0][-1]) + 8.6) <= 0.01, (float(r[0][-1]),))
        return
    if case['k'] == 'same':
        # the same exchanger object, changed between two calls
        y, Rb2 = tube(S, 0, '_first', 'c')
        m = cls(y)
        m.calc_sts_g_functions(y, final_time=DT * 3)
        y.b.H = x.b.H
        y.__dict__.update({k: v for k, v in x.__dict__.items()
                           if k not in ('b', 'borehole')})
        x = y
        systems[:], cells[:], temps[:] = [], [], []
    if case['k'] == 'again':
        y, Rb2 = tube(S, 1, '_first', 'c')
        m.calc_sts_g_functions(y, final_time=DT * 3)
        systems[:], cells[:], temps[:] = [], [], []
    r = m.calc_sts_g_functions(x, final_time=fin)
    S.prove('one step per value', len(systems) == n, (n, len(systems)))
    lntts, gs = list(r[0]), list(r[1])
    S.prove('as many times as values', len(lntts) == len(gs) == n)
    S.prove('the values are kept', len(m.g) == n and len(m.lntts) == n)
    C = cells[-1]
    N = len(C[0])
    idx = m.cell_inputs
    row = lambda k: C[idx[k]]
    typ = [int(float(t)) for t in row('type')]
    ri, rc, ro, kk, cc, vol = [row(q) for q in (
        'inner-radius', 'center-radius', 'outer-radius', 'conductivity',
        'heat-capacity', 'volume')]
    if case['k'] == 'pipe':
        j = [i for i in range(N) if typ[i] == 3]
        S.prove('the pipe cells end where the grout begins', abs(
            float(ro[j[-1]]) - math.sqrt(2) * r_out) <= 1e-9,
            (float(ro[j[-1]]), math.sqrt(2) * r_out))
        return
    tps = m.t_s
    S.prove('the time scale is that of the exchanger', near(
        tps * (9 * x.soil.k / x.soil.rhoCp), x.b.H * x.b.H))
    for i in range(n):
        # the first is (1e-12 - 120) + 120 s, in floats
        S.prove('values are 120 s apart', sand(
            lntts[i] >= slog((.9e-12 + DT * i * (1 - 1e-9)) / tps),
            lntts[i] <= slog((1.1e-12 + DT * i * (1 + 1e-9)) / tps)),
            (i, lntts[i]))
    for a, b in zip(lntts, lntts[1:]):
        S.prove('times increase strictly', b > a, (a, b))
    # the system of every step conserves energy
    cap = [cc[i] * vol[i] for i in range(N)]
    step = case['k'] in ('step', 'again', 'same')
    if step:
        old = [20.] * N
        G = 10 if case['free'] == 'c' else 1
        for s in range(n):
            dl, d, du, b = systems[s]
            S.prove('one equation per cell', len(d) == N == len(b) and
                    len(dl) == len(du) == N - 1)
            conds = {'rows': [], 'old': [], 'sym': [], 'sign': []}
            # the system may be scaled row by row: -1 on the diagonal here
            rows = [i for i in range(N) if case['free'] == 'c' or i < 50 or
                    i % 100 == 0 or i > N - 5]
            for i in rows:
                if i == N - 1:
                    S.prove('the far field keeps its temperature', sand(
                        abs(dl[i - 1]) <= 1e-12, near(b[i], d[i] * old[i])),
                        (dl[i - 1], d[i], b[i]))
                    continue
                w = dl[i - 1] if i else 0.
                sc = -(w + d[i] + du[i])     # factor of the row
                conds['rows'].append(sc > 0)
                conds['sign'].append(sand(w >= 0, du[i] > 0))
                q = (1. if i == 0 else 0.)
                # heat stored is the heat brought in during the step
                z = -b[i] - sc * old[i]
                e = 1e-9 + 1e-12 * 300 * (w + du[i] - d[i])
                conds['old'].append(
                    sand(z * cap[i] <= sc * q * DT + e * cap[i],
                         z * cap[i] >= sc * q * DT - e * cap[i])
                    if i == 0 else sand(z <= e, z >= -e))
                if 0 < i:
                    psc = -((dl[i - 2] if i > 1 else 0.) + d[i - 1] +
                            du[i - 1])
                    conds['sym'].append(near(w * cap[i] * psc,
                                             du[i - 1] * cap[i - 1] * sc,
                                             1e-6))
            for name, label in (
                    ('rows', 'a uniform temperature stays'),
                    ('sign', 'heat flows from warm to cold'),
                    ('old', 'heat enters the fluid only, every step starts '
                     'from the temperatures of the last'),
                    ('sym', 'what leaves a cell enters its neighbour')):
                cl = conds[name]
                for j in range(0, len(cl), G):
                    S.prove(label, sand(cl[j:j + G]), (s, j))
            old = temps[s]
        for s in range(n):
            want = 2 * math.pi * x.soil.k * (temps[s][0] - 20. - Rb)
            S.prove('the value is the fluid temperature rise less the '
                    'borehole resistance', sand(
                        gs[s] - want <= 1e-7, want - gs[s] <= 1e-7),
                    (gs[s], want))
            for o, what in ((m.g, gs), (m.lntts, lntts)):
                S.prove('the kept values are the ones returned', sand(
                    o[s] >= what[s] - 1e-12, o[s] <= what[s] + 1e-12))
        if n > 1:
            S.prove('the interpolation holds the values', abs(
                m.g_sts(lntts[n - 1]) - gs[n - 1]) <= 1e-9)
        return
    # the cells
    by = {t: [i for i in range(N) if typ[i] == t] for t in range(1, 6)}
    S.prove('every cell has a type', all(t in by and by[t] for t in by) and
            sum(len(v) for v in by.values()) == N)
    S.prove('cells run from the fluid outwards', typ == sorted(typ))
    F = lambda v: float(v)
    for i in range(N):
        S.prove('a cell encloses its centre', F(ri[i]) <= F(rc[i]) < F(ro[i]),
                (i,))
        S.prove('the volume is that of the ring', abs(F(vol[i]) - math.pi * (
            F(ro[i]) ** 2 - F(ri[i]) ** 2)) <= 1e-9 * F(vol[i]), (i,))
    r_ot = math.sqrt(2) * r_out
    r_it = r_ot - (r_out - r_in)
    r_ic = r_it - (r_out - r_in) / 4
    r_f = r_ic - 0.75 * (r_out - r_in)
    for t, a, b in ((2, r_ic, r_it), (4, r_ot, r_b), (5, r_b, 10 - r_b)):
        js = by[t]
        S.prove('the layers reach from one to the next',
                abs(F(ri[js[0]]) - a) <= 1e-9 and
                abs(F(ro[js[-1]]) - b) <= 1e-9,
                (t, F(ri[js[0]]), a, F(ro[js[-1]]), b))
        for p, q in zip(js, js[1:]):
            S.prove('cells of a layer touch', abs(F(ro[p]) - F(ri[q])) <=
                    1e-9, (t, p))
    S.prove('the pipe begins at the convection layer',
            abs(F(ri[by[3][0]]) - r_it) <= 1e-9)
    S.prove('the fluid begins at its radius',
            abs(F(rc[by[1][0]]) - r_f) <= 1e-9)
    for t, k, c in ((5, x.soil.k, x.soil.rhoCp), (4, None, x.grout.rhoCp),
                    (3, None, x.pipe.rhoCp)):
        S.prove('heat capacity of the layer',
                sand([near(cc[i], c) for i in by[t]]), (t,))
        if k is not None:
            S.prove('conductivity of the layer',
                    sand([near(kk[i], k) for i in by[t]]), (t,))
    L = math.log(r_b / r_it) / 2 / math.pi
    S.prove('grout conductivity gives the borehole resistance left by the '
            'film', sand([near(kk[i] * (Rb - x.R_f / 2), L)
                          for i in by[4]]))
    S.prove('pipe conductivity gives the wall resistance of both legs',
            sand([near(kk[i] * (x.R_p / 2), L) for i in by[3]]))
    S.prove('the convection layer has the film resistance of both legs', near(
        sum([math.log(F(ro[i]) / F(ri[i])) / (2 * math.pi * kk[i])
             for i in by[2]]), x.R_f / 2))
    cf = 2 * math.pi * r_in ** 2 * x.fluid.rho * x.fluid.cp
    S.prove('the fluid layer stores the heat of the fluid of both legs',
            sand([near(cc[i] * (math.pi * (r_ic ** 2 - r_f ** 2)), cf)
                  for i in by[1]]))
    S.prove('cells start at the initial temperature', sand(
        [abs(v - 20.) <= 1e-12 for v in row('initial-temperature')]))
