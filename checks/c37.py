"""C37 / the printed reports."""
import re
from checks.env import *

BOUNDS = ('exchangers of 1 to 12 boreholes with 1 to 200 short-time values; '
          'all stated quantities free; single and double U-tubes, coaxial '
          'pipes; temperature lists of up to 4 '
          'values, and of 17520 of which 4 are free')
ASSUMPTIONS = ['numbers are printed to four decimals']
LTS = [-8.5, -7.8, -7.2, -6.5, -5.9, -5.2, -4.5, -3.963, -3.27, -2.864,
       -2.577, -2.171, -1.884, -1.191, -0.497, -0.274, -0.051, 0.196, 0.419,
       0.642, 0.873, 1.112, 1.335, 1.679, 2.028, 2.275, 3.003]
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
          'August', 'September', 'October', 'November', 'December']


def cases(tier):
    cs = [{'id': 'params-%d' % e, 'k': 'params', 'end': e}
          for e in (0, 108, 228, 588)]
    for b in ('single', 'double-parallel', 'double-series', 'coaxial'):
        cs.append({'id': 'exchanger-' + b, 'k': 'bhe', 'b': b})
    for p in ('flow', 'loads'):
        for i in range(5):
            cs.append({'id': 'table-%s-%d' % (p, i), 'k': 'table', 'i': i,
                       'p': p})
    for n, ns, nt in ((1, 7, 0), (4, 50, 1), (6, 75, 3), (12, 200, 3),
                      (3, 75, 17520)):
        cs.append({'id': 'ghe-%d-%d-%d' % (n, ns, nt), 'k': 'ghe', 'n': n,
                   'ns': ns, 'nt': nt})
    if tier != 'quick':
        cs += [{'id': 'ghe-%d-%d-%d' % (n, ns, nt), 'k': 'ghe', 'n': n,
                'ns': ns, 'nt': nt} for n, ns, nt in
               ((2, 1, 1), (3, 30, 2), (5, 100, 4), (8, 499, 4),
                (40, 150, 2))]
    return cs


def values(text):
    """[(section, name, value)] of a report."""
    sec, out = '', []
    for line in text.splitlines():
        m = re.match(r"<class '[\w.]*?(\w+)'>", line)
        if m:
            sec = m.group(1)
        h = re.match(r'\|\s*(.*?)\s*\|$', line)
        if h:
            sec = h.group(1)
        if '=' in line and not line.startswith('Borehole('):
            k, v = line.split('=', 1)
            out.append((sec, k.strip(), v.strip()))
    return out


def stated(S, vs, name, want, sec=None):
    """The report states want under name."""
    got = [v for s, k, v in vs if re.match(name, k) and
           (sec is None or s == sec)]
    S.prove('the report has its entries', len(got) >= 1, (name, sec))
    for g in got:
        if isinstance(want, str):
            S.prove('the report states the design: ' + name, g == want,
                    (g, want))
            continue
        if isinstance(want, list):
            t = g[g.index('[') + 1:g.index(']')].split(',')
            S.prove('the report states the design: ' + name, sand(
                [abs(S.parse(a.strip()) - w) <= 1e-4 + 1e-9 * abs(w)
                 for a, w in zip(t, want)]), (g, want))
            continue
        # a value with its unit; the unit may follow without a space
        m = re.match(r'\s*(.*?)\s*(\(.*)?$', g)
        v = S.parse(m.group(1))
        S.prove('the report states the design: ' + name,
                abs(v - want) <= 6e-5 + 1e-9 * abs(want), (v, want))


def harness(S, case):
    dt, plat, gt = mods(S)
    k = case['k']
    if k == 'params':
        a = [S.int('start', 1, 12) if not case['end'] else 1,
             S.int('month', 1, 12) + case['end'],
             S.real('hi', 20, 60), S.real('lo', -10, 20),
             S.real('Hmax', 100, 400), S.real('Hmin', 10, 99)]
        params(S, values(repr(plat.media.SimulationParameters(*a))), a)
        return
    globals()[k](S, case, dt, plat, gt)


def params(S, vs, a):
    for n, w in zip(('Start month', 'End month', 'Max EFT', 'Min EFT',
                     'Maximum height', 'Minimum height'), a):
        stated(S, vs, n, w)


def bhe(S, case, dt, plat, gt):
    M = plat.borehole_heat_exchangers
    b = case['b']
    m = S.real('m_flow', 0.01, 5)
    e = media(S, dt, plat, gt, n_u=1 if b == 'single' else 2)
    e.soil.k, e.grout.k = S.real('k_s', .5, 6), S.real('k_g', .5, 5)
    e.soil.ugt = S.real('ugt', -5, 40)
    e.soil.rhoCp = S.real('rc_s', 1e6, 5e6)
    e.grout.rhoCp = S.real('rc_g', 1e6, 5e6)
    h, hi, ho = (S.real(n, 50, 5000) for n in ('h', 'h_i', 'h_o'))
    Rb = S.real('Rb', 0.01, 1)
    S.hook('h_circular', lambda *a: h)
    S.hook('h_annulus', lambda *a: (hi, ho))

    def resistance(self, mf, cp):
        S.prove('the resistance is that at the own flow and fluid',
                sand(abs(mf - m) <= 1e-12, abs(cp - e.fluid.cp) <= 1e-9),
                (mf, cp))
        return Rb
    S.hook('effective_borehole_thermal_resistance', resistance)
    if b == 'coaxial':
        kp = [S.real('k_p', .1, 50), 0.4]
        r_in, r_out = [0.0221, 0.025], [0.0487, 0.055]
        pipe = plat.media.Pipe((0., 0.), r_in, r_out, 0., 1e-6, kp, 1542000.)
        x = M.CoaxialPipe(m, e.fluid, e.borehole, pipe, e.grout, e.soil)
        per = m
        rest = [('Inner pipe resistance', x.R_p_in),
                ('Outer pipe resistance', x.R_p_out),
                ('Grout resistance', x.R_grout),
                ('Inner annulus convection', hi),
                ('Outer annulus convection', ho),
                ('Inner annulus resistance', x.R_f_a_in),
                ('Outer annulus resistance', x.R_f_a_out),
                ('Inner Convection', h), ('Fluid-to-fluid', x.R_ff),
                ('Fluid-to-pipe', x.R_fp)]
    else:
        kp = S.real('k_p', .1, 50)
        e.pipe.k = kp
        if b == 'single':
            x = M.SingleUTube(m, e.fluid, e.borehole, e.pipe, e.grout, e.soil)
            per = m
        else:
            cfg = b.split('-')[1]
            x = M.MultipleUTube(m, e.fluid, e.borehole, e.pipe, e.grout,
                                e.soil, config=cfg)
            per = m if cfg == 'series' else m / 2
        pipe = e.pipe
        rest = [('Convection coefficient', h), ('Pipe resistance', x.R_p),
                ('Fluid resistance', x.R_f)]
    vs = values(repr(x))
    stated(S, vs, 'Mass flow borehole', m)
    stated(S, vs, 'Mass flow pipe', per)
    for n, w in rest:
        stated(S, vs, n, w)
    stated(S, vs, 'Effective borehole resistance', Rb)
    for n, o in (('Soil', e.soil), ('Grout', e.grout), ('Pipe', pipe)):
        stated(S, vs, 'Thermal conductivity', o.k, n)
        stated(S, vs, 'Volumetric heat capacity', o.rhoCp, n)
    stated(S, vs, 'Undisturbed ground temperature', e.soil.ugt)
    stated(S, vs, 'Number of pipes', pipe.n_pipes)
    stated(S, vs, 'Shank spacing', pipe.s)
    stated(S, vs, 'Pipe inner radi', pipe.r_in)
    stated(S, vs, 'Pipe outer radi', pipe.r_out)
    if b.startswith('double'):
        stated(S, vs, 'Config', b.split('-')[1])


FIELDS = [('Total', 'monthly_total'), ('Peak', 'monthly_peak'),
          ('Average', 'monthly_average'), ('Peak Day', 'monthly_peak_day'),
          ('Peak Duration', 'monthly_peak_duration')]


def monthly(S, i, q):
    """Monthly quantities of both loads; those of field i are free."""
    out = {}
    for s, load in enumerate(('rejection', 'extraction')):
        v = {}
        for j, (_, a) in enumerate(FIELDS):
            v[a] = [0.] + [
                S.real('%s%d_%d' % (load[0], j, m), 0, 1e4) if j == i else
                100. * s + 20. * j + m for m in range(12)]
        out[load] = types.SimpleNamespace(**v)
    return out


def table(S, case, dt, plat, gt):
    h = built_hybrid(S, plat)
    loads = monthly(S, case['i'], case['p'])
    h.rejection, h.extraction = loads['rejection'], loads['extraction']
    df = h.create_dataframe_of_peak_analysis()
    S.prove('a row for every month', list(df.index) == MONTHS)
    for f, a in FIELDS:
        for load in loads:
            for m in range(12):
                S.prove('the table states the month',
                        abs(scalar(df[(f, load)].iloc[m]) -
                            getattr(loads[load], a)[m + 1]) <= 1e-12,
                        (f, load, m))
    if case['p'] == 'loads':
        text = repr(h)
        S.prove('the months are listed', all(m in text for m in MONTHS))


def ghe(S, case, dt, plat, gt):
    np = dt.ground_heat_exchangers.np
    n, ns, nt = case['n'], case['ns'], case['nt']
    H, B = S.real('H', 20, 300), S.real('B', 2, 12)
    rb = S.real('r_b', 0.03, 0.2)
    g_l = S.reals('g', 27, -5, 60)
    x_s = [-40. + 31. * i / max(ns - 1, 1) for i in range(ns)]
    y_s = [S.real('s%d' % i, -8, 8) if i < 3 or i >= ns - 3 else 0.001 * i
           for i in range(ns)]
    x = types.SimpleNamespace()
    coords = [(S.real('x%d' % i, -100, 100), 5. * i) for i in range(n)]

    def interp(B_over_H, kind='default'):
        S.prove('the g-function is that of the spacing and height',
                abs(B_over_H * H - B) <= 1e-9 * 300, (B_over_H, B, H))
        return list(g_l), rb, 2., H
    x.GFunction = types.SimpleNamespace(
        log_time=list(LTS), bore_locations=coords,
        g_function_interpolation=interp,
        borehole_radius_correction=lambda g_function, rb, rb_star:
        list(g_function))
    x.B_spacing = B

    class Part:
        def __init__(self, text, **k):
            self.text = text
            self.__dict__.update(k)

        def __repr__(self):
            return self.text
    x.bhe = Part('the-exchanger\n', b=types.SimpleNamespace(H=H, r_b=rb, D=2.))
    x.bhe_eq = Part('the-equivalent\n')
    lim = [S.int('start', 1, 12), 239, S.real('hi', 20, 60),
           S.real('lo', -10, 20), S.real('Hmax', 100, 400), 60.]
    x.sim_params = plat.media.SimulationParameters(*lim)
    x.hybrid_load = Part('the-hybrid-load\n')
    x.radial_numerical = types.SimpleNamespace(lntts=np.array(x_s),
                                               g=np.array(y_s))
    T = S.reals('T', min(nt, 4), -20, 80)
    if nt > 4:      # years of hours, of which four are free
        at = [0, 5, nt // 2, nt - 1]
        T = [T[at.index(i)] if i in at else 10. + (i % 97) / 10.
             for i in range(nt)]
    x.HPEFT = list(T)
    x.dTb = list(T)
    x = built_ghe(S, dt, plat, x)
    text = repr(x)
    vs = values(text)
    stated(S, vs, 'Number of bor', n)
    stated(S, vs, 'Depth of the borehole', H)
    stated(S, vs, 'Bore ?hole spacing', B)
    params(S, vs, lim)
    if nt:
        hi, lo = smax(T), smin(T)
        S.prove('the results have their heading',
                any(s == 'Simulation Results' and k.startswith('Max HP')
                    for s, k, _ in vs))
        stated(S, vs, 'Max HP entering', hi)
        stated(S, vs, 'Min HP entering', lo)
        stated(S, vs, 'Excess fluid temp', smax(hi - lim[2], lim[3] - lo))
    for p in ('the-exchanger', 'the-equivalent', 'the-hybrid-load'):
        S.prove('every part is reported', p in text, p)
    rows = [l.split('\t') for l in text.splitlines()]
    rows = [r for r in rows if len(r) == 2]
    heads = [i for i, r in enumerate(rows) if '(' in r[0] or 'ln' in r[0]]
    S.prove('both tables are there', len(heads) == 2)
    xy = rows[heads[0] + 1:heads[1]]
    S.prove('all boreholes are listed', len(xy) == n)
    S.prove('all boreholes are listed', sand(
        [sand(abs(S.parse(a) - c[0]) <= 6e-5, abs(S.parse(b) - c[1]) <= 6e-5)
         for (a, b), c in zip(xy, coords)]))
    g = [(S.parse(a), S.parse(b)) for a, b in rows[heads[1] + 1:]]
    xs, ys = x_s + LTS, y_s + g_l
    ts = [float(p[0]) for p in g]
    S.prove('times do not decrease', all(b >= a for a, b in zip(ts, ts[1:])))
    idx = []
    for t in ts:
        j = min(range(len(xs)), key=lambda i: abs(xs[i] - t))
        S.prove('every time is one of the g-function',
                abs(xs[j] - t) <= 6e-5, (t,))
        idx.append(j)
    S.prove('no row is repeated', len(set(idx)) == len(idx))
    S.prove('every value is the one of its time', sand(
        [abs(p[1] - ys[j]) <= 6e-5 for p, j in zip(g, idx)]))
    S.prove('all long times are there', set(range(ns, ns + 27)) <= set(idx))
    S.prove('enough of the short times are there',
            len(idx) - 27 >= min(ns - 1, 30), (ns, len(idx) - 27))
