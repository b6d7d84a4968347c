"""C27 / the equivalent single U-tube."""
from checks.env import *
import math

BOUNDS = ('double and triple U-tubes (parallel and series) and coaxial pipes '
          'of two geometries each; borehole radius, flow, film coefficients, '
          'fluid, pipe, grout and soil properties free; the volume helpers '
          'for every radius')
ASSUMPTIONS = ['film coefficients are arbitrary positive functions of their '
               'arguments; the effective borehole resistance of the original '
               'is any number, that of the equivalent any decreasing function '
               'of the grout conductivity; root finder by its contract']
GEO = {'u': ((0.0108, 0.013335, 0.0323), (0.016, 0.02, 0.045)),
       'c': ((0.0221, 0.025, 0.0487, 0.055), (0.015, 0.0175, 0.03, 0.0345))}


def cases(tier):
    cs = []
    for b in ('double-parallel', 'double-series', 'triple-parallel',
              'coaxial'):
        for g in (0, 1):
            for part in ('geometry', 'pipe', 'grout'):
                cs.append({'id': '%s-%d-%s' % (b, g, part), 'k': 'eq',
                           'b': b, 'g': g, 'part': part})
    for n in (1, 2, 3, 5):
        cs.append({'id': 'volumes-%d' % n, 'k': 'vol-u', 'n': n})
    cs.append({'id': 'volumes-coaxial', 'k': 'vol-c'})
    cs.append({'id': 'film-u', 'k': 'film', 'n': 2})
    cs.append({'id': 'single', 'k': 'single'})
    cs.append({'id': 'refuse', 'k': 'refuse'})
    return cs


def build(S, dt, plat, gt, b, g, r_b, m, fl, kp, kg, ks):
    M = plat.borehole_heat_exchangers
    bh = gt.boreholes.Borehole(96., 2., r_b, 0., 0.)
    grout = plat.media.Grout(kg, 3901000.)
    soil = plat.media.Soil(ks, 2343493., 18.3)
    if b == 'coaxial':
        a, c, d, e = GEO['c'][g]
        pipe = plat.media.Pipe((0., 0.), [a, c], [d, e], 0., 1e-6,
                               [kp * 0.5, kp], 1542000.)
        return M.CoaxialPipe(m, fl, bh, pipe, grout, soil)
    r_in, r_out, s = GEO['u'][g]
    n = {'s': 1, 'd': 2, 't': 3}[b[0]]
    pos = plat.media.Pipe.place_pipes(s, r_out, n)
    pipe = plat.media.Pipe(pos, r_in, r_out, s, 1e-6, kp, 1542000.)
    if n == 1:
        return M.SingleUTube(m, fl, bh, pipe, grout, soil)
    return M.MultipleUTube(m, fl, bh, pipe, grout, soil,
                           config=b.split('-')[1])


def close(a, b, tol=1e-9):
    return sand(a - b <= tol * sabs(b), b - a <= tol * sabs(b))


def harness(S, case):
    dt, plat, gt = mods(S)
    M, Q = plat.borehole_heat_exchangers, plat.equivalance
    if case['k'] == 'vol-u':
        r_in, r_out = S.real('r_in', .003, .1), S.real('r_out', .003, .15)
        S.assume(r_out >= 1.01 * r_in)
        h, kp, n = S.real('h', 10, 1e5), S.real('kp', .05, 400), case['n']
        t = types.SimpleNamespace(
            nPipes=n, r_in=r_in, r_out=r_out, h_f=h,
            b=types.SimpleNamespace(r_b=S.real('r_b', .03, .5)),
            pipe=types.SimpleNamespace(k=kp))
        vf, vp, rc, rp = Q.u_tube_volumes(t)
        S.prove('fluid volume of all legs',
                close(vf, 2 * n * math.pi * r_in * r_in))
        S.prove('pipe volume of all legs', close(
            vp, 2 * n * math.pi * (r_out - r_in) * (r_out + r_in)))
        S.prove('wall resistance of all legs', close(
            rp, slog(r_out / r_in) / (4 * n * math.pi * kp)))
        S.prove('the film resistance is positive and falls with the film '
                'coefficient', sand(rc > 0, close(rc * h, Q.u_tube_volumes(
                    types.SimpleNamespace(**dict(t.__dict__, h_f=1.0)))[2])))
        return
    if case['k'] == 'film':
        r_in, n = S.real('r_in', .003, .1), case['n']
        h = S.real('h', 10, 1e5)
        t = types.SimpleNamespace(
            nPipes=n, r_in=r_in, r_out=1.2 * r_in, h_f=h,
            b=types.SimpleNamespace(r_b=.5),
            pipe=types.SimpleNamespace(k=.4))
        rc = Q.u_tube_volumes(t)[2]
        S.prove('the film resistance is that of the inner pipe surfaces',
                close(rc, 1 / (h * 2 * n * 2 * math.pi * r_in)), (rc,))
        return
    if case['k'] == 'vol-c':
        a, b, c, d = [S.real(x, .003, .2) for x in 'abcd']
        S.assume(b >= 1.02 * a)
        S.assume(c >= 1.02 * b)
        S.assume(d >= 1.02 * c)
        h, ki, ko = S.real('h', 10, 1e5), S.real('ki', .05, 400), \
            S.real('ko', .05, 400)
        t = types.SimpleNamespace(
            r_inner=[a, b], r_outer=[c, d], h_fluid_a_in=h,
            b=types.SimpleNamespace(r_b=S.real('r_b', .03, .5)),
            pipe=types.SimpleNamespace(k=[ki, ko]),
            h_fluid_a_out=S.real('h2', 10, 1e5), r_in_in=a, r_in_out=b,
            r_out_in=c, r_out_out=d)
        vf, vp, rc, rp = Q.concentric_tube_volumes(t)
        S.prove('fluid volume of pipe and annulus', close(
            vf, math.pi * (a * a + c * c - b * b)))
        S.prove('pipe volume of both pipes', close(
            vp, math.pi * (b * b - a * a + d * d - c * c)))
        S.prove('wall resistance of the outer pipe', close(
            rp, slog(d / c) / (2 * math.pi * ko)))
        S.prove('film resistance of the annulus at the outer pipe', sor(
            close(rc, 1 / (h * 2 * math.pi * c)),
            close(rc, 1 / (t.h_fluid_a_out * 2 * math.pi * c))))
        return
    b, g = case.get('b', 'single'), case.get('g', 0)
    part = case.get('part')
    S.hook('h_circular', lambda *a: S.fn('h', a, 10, 1e5))
    S.hook('h_annulus', lambda *a: (S.fn('h_in', a, 10, 1e5),
                                    S.fn('h_out', a, 10, 1e5)))
    ref = []
    rb0 = S.real('Rb', .001, 2) if part == 'grout' else 0.1

    def rb(self, m, cp):
        if not ref or self is ref[0]:
            return rb0
        if part != 'grout':
            return 0.2 - 0.01 * scalar(self.k_g)
        return S.curve('Rb_new', self.k_g, .0005, 4, mono='dec')
    S.hook('effective_borehole_thermal_resistance', rb)
    free = lambda n, p, v, lo, hi: S.real(n, lo, hi) if part == p else v
    least = GEO['c'][g][3] if b == 'coaxial' else \
        GEO['u'][g][2] / 2 + 2 * GEO['u'][g][1]
    r_b = free('r_b', 'geometry', 0.15, least + .0005, .3)
    m = S.real('m_flow', 0.01, 5)
    kp = free('k_pipe', 'pipe', 0.4, .05, 400)
    kg = free('k_grout', 'grout', 1.0, .3, 4)
    ks = S.real('k_soil', .3, 6)
    mu, cp = S.real('mu', 1e-4, .05), S.real('cp', 1000, 5000)
    fl = types.SimpleNamespace(rho=998., cp=cp, mu=mu, k=.6)
    if case['k'] == 'refuse':
        for x in (None, 3, object(), types.SimpleNamespace(pipe=None)):
            try:
                Q.compute_equivalent(x)
            except ValueError:
                continue
            S.fail('anything else is refused with ValueError', repr(x)[:20])
        S.prove('anything else is refused', True)
        return
    x = build(S, dt, plat, gt, b, g, r_b, m, fl, kp, kg, ks)
    ref.append(x)
    if case['k'] == 'single':
        S.prove('a single U-tube is its own equivalent',
                Q.compute_equivalent(x) is x)
        return
    keep = (x.pipe.k, x.grout.k, x.soil.k, x.b.r_b, x.m_flow_borehole,
            x.pipe.r_in, x.pipe.r_out, x.b.H, x.R_fp, x.k_g)
    e = Q.compute_equivalent(x)
    S.prove('a single U-tube', type(e) is M.SingleUTube)
    now = (x.pipe.k, x.grout.k, x.soil.k, x.b.r_b, x.m_flow_borehole,
           x.pipe.r_in, x.pipe.r_out, x.b.H, x.R_fp, x.k_g)
    for p, q in zip(keep, now):
        if isinstance(p, list):
            S.prove('the original stays', p is q or p == q)
        else:
            S.prove('the original stays', sand(p <= q, p >= q), (p, q))
    if part == 'geometry':
        S.prove('nothing is shared with the original', e is not x and
                e.b is not x.b and e.pipe is not x.pipe and
                e.grout is not x.grout and e.soil is not x.soil)
    # volumes
    if b == 'coaxial':
        a, c, d, f = GEO['c'][g]
        vf = math.pi * (a * a + d * d - c * c)
        vp = math.pi * (c * c - a * a + f * f - d * d)
        hc = S.fn('h_in', (m, c, d, mu, 998., .6, cp, 1e-6), 10, 1e5)
        R_conv = 1 / (hc * 2 * math.pi * d)
        R_pipe = math.log(f / d) / (2 * math.pi * kp)
    else:
        n = {'d': 2, 't': 3}[b[0]]
        r_in, r_out, s = GEO['u'][g]
        vf = 2 * n * math.pi * r_in ** 2
        vp = 2 * n * math.pi * r_out ** 2 - vf
        per = m / n if b.endswith('parallel') else m
        hc = S.fn('h', (per, r_in, mu, 998., .6, cp, 1e-6), 10, 1e5)
        R_conv = Q.u_tube_volumes(x)[2]
        R_pipe = math.log(r_out / r_in) / (4 * n * math.pi * kp)
    ri, ro = math.sqrt(vf / 2 / math.pi), math.sqrt((vf + vp) / 2 / math.pi)
    for o in (e, e.pipe):
        S.prove('both legs hold the fluid volume', close(o.r_in, ri))
        S.prove('both legs hold the pipe volume', close(o.r_out, ro))
    if part == 'geometry':
        S.prove('two legs', len(e.pos) == 2)
        (x0, y0), (x1, y1) = [tuple(scalar(q) for q in p) for p in e.pos]
        d2 = (x0 - x1) * (x0 - x1) + (y0 - y1) * (y0 - y1)
        S.prove('the legs do not overlap',
                d2 >= 4 * ro * ro * (1 - 1e-8))
        nrb = scalar(e.b.r_b)
        for px, py in ((x0, y0), (x1, y1)):
            S.prove('the legs are inside the borehole', sand(
                nrb > ro,
                px * px + py * py <= (nrb - ro) * (nrb - ro) * (1 + 1e-8)))
        S.prove('legs are the shank spacing apart', sand(
            d2 <= (2 * ro + e.pipe.s) ** 2 + 1e-9,
            d2 >= (2 * ro + e.pipe.s) ** 2 - 1e-9))
        S.prove('a borehole that holds both legs keeps its radius', simplies(
            r_b >= 2 * ro + 1e-9, close(nrb, r_b)))
        S.prove('the borehole is never made smaller', nrb >= r_b - 1e-12)
        for q in (e.b, e.borehole):
            S.prove('same height and depth', sand(
                abs(q.H - 96.) <= 1e-12, abs(q.D - 2.) <= 1e-12))
        S.prove('one borehole', e.b is e.borehole)
        S.prove('same soil, grout and pipe heat', sand(
            abs(e.soil.k - ks) <= 1e-12, abs(e.k_s - ks) <= 1e-12,
            abs(e.soil.rhoCp - 2343493.) <= 1e-6,
            abs(e.grout.rhoCp - 3901000.) <= 1e-6,
            abs(e.pipe.rhoCp - 1542000.) <= 1e-6,
            abs(e.pipe.eps - 1e-6) <= 1e-15, abs(e.soil.ugt - 18.3) <= 1e-12))
    S.prove('same flow', sand(abs(e.m_flow_borehole - m) <= 1e-12,
                              abs(e.m_flow_pipe - m) <= 1e-12))
    S.prove('same fluid', sand(abs(e.fluid.mu - mu) <= 1e-15,
                               abs(e.fluid.cp - cp) <= 1e-9))
    # resistances
    if part == 'pipe':
        h2 = S.fn('h', (m, e.pipe.r_in, mu, 998., .6, cp, 1e-6), 10, 1e5)
        Rf = 1 / (h2 * 2 * math.pi * e.pipe.r_in)
        lg = math.log(ro / ri) / (2 * math.pi)
        k = e.pipe.k
        k0 = lg / (2 * R_pipe)
        S.observe('k', k)
        S.prove('the pipe resistance is up to date',
                close(e.R_fp, Rf + lg / k, 1e-7))
        S.prove('the pipe conductivity is in its range', sand(
            k >= k0 / 100 * (1 - 1e-9), k <= k0 * 10 * (1 + 1e-9)))
        T = R_conv + R_pipe - Rf          # what the wall has to add
        # lg / k = T at the root: compare without dividing
        S.prove('out of reach upwards gives the least conductivity', simplies(
            T * k0 >= 100 * lg * (1 + 1e-9), close(k, k0 / 100)), (k, k0))
        S.prove('out of reach downwards gives the most conductivity',
                simplies(T * k0 * 10 <= lg * (1 - 1e-9), close(k, k0 * 10)),
                (k, k0))
        dd = 2.05e-6 * (1 + k) + 1e-9 * k
        inside = sand(T * k0 < 100 * lg, T * k0 * 10 > lg)
        S.prove('film and wall resistance together match the original',
                simplies(inside, sand(T * (k + dd) >= lg,
                                      sor(k <= dd, T * (k - dd) <= lg))),
                (k, T))
    if part == 'grout':
        k = e.grout.k
        S.observe('k', k)
        S.prove('the grout is the one the borehole model uses',
                close(e.k_g, k, 1e-12))
        if S.sym:
            at = e.delta_of
            S.prove('the resistances between the legs are those of the grout',
                    close(at[0], k, 1e-9))
        else:
            was = e._Rd.copy()
            e.update_thermal_resistances(e.R_fp)
            S.prove('the resistances between the legs are those of the grout',
                    abs(was / e._Rd - 1).max() <= 1e-9)
        S.prove('the grout conductivity is in its range',
                sand(k >= .01 - 1e-12, k <= 7 + 1e-12))
        f = lambda q: S.curve('Rb_new', q, .0005, 4, mono='dec')
        lo, hi = f(.01), f(7.)
        dd = 2.05e-6 * (1 + k)
        S.prove('a lower resistance than any grout gives takes the most '
                'conductive', simplies(rb0 < hi, close(k, 7.)))
        S.prove('a higher resistance than any grout gives takes the least '
                'conductive', simplies(rb0 > lo, close(k, .01)))
        if sand(rb0 <= lo, rb0 >= hi):
            S.prove('the borehole resistances match',
                    sand(f(smax([k - dd, .001])) >= rb0, f(k + dd) <= rb0),
                    (k, rb0))
