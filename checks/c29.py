"""C29 / flow sharing and updates of the exchanger models."""
from checks.env import *
import math

BOUNDS = ('single, double and triple U-tubes in series and in parallel and a '
          'coaxial pipe; every flow, fluid property and pipe conductivity in '
          'physical ranges; up to two updates one after the other')
ASSUMPTIONS = ['film coefficients are arbitrary positive functions of their '
               'arguments; the effective borehole resistance is an arbitrary '
               'function of flow, heat capacity and the resistances set']

KINDS = ('single', 'double-parallel', 'double-series', 'triple-parallel',
         'triple-series', 'coaxial')


def cases(tier):
    cs = []
    for b in KINDS:
        cs.append({'id': 'share-' + b, 'k': 'share', 'b': b})
        for u in (('m', 'fluid', 'pipe', 'both', 'none', 'eff-m', 'eff-fluid',
                   'eff-both', 'eff-none', 'm-m', 'fluid-m', 'attr')
                  if tier == 'quick' else
                  ('m', 'fluid', 'pipe', 'both', 'none', 'eff-m', 'eff-fluid',
                   'eff-both', 'eff-none', 'm-m', 'fluid-m', 'm-fluid',
                   'pipe-m', 'eff-m-eff-fluid', 'm-none', 'm-pipe', 'attr',
                   'm-fluid-pipe')):
            cs.append({'id': 'update-%s-%s' % (b, u), 'k': 'update', 'b': b,
                       'u': u})
    cs.append({'id': 'refuse', 'k': 'refuse', 'b': 'single'})
    return cs


def install(S):
    def hc(*a):
        # m_flow, r_in, mu, rho, k, cp, eps
        return S.fn('h', a, 10, 1e5)

    def ha(*a):
        return (S.fn('h_in', a, 10, 1e5), S.fn('h_out', a, 10, 1e5))

    def rb(self, m, cp):
        x = [m, cp, self.R_fp]
        if hasattr(self, 'R_ff') and self.R_ff is not None:
            x.append(self.R_ff)
        return S.fn('Rb', x, 0.001, 2)
    S.hook('h_circular', hc)
    S.hook('h_annulus', ha)
    S.hook('effective_borehole_thermal_resistance', rb)


def fluid(S, tag):
    n = 'fluid%s_' % tag
    return types.SimpleNamespace(
        rho=S.real(n + 'rho', 500, 1500), cp=S.real(n + 'cp', 1000, 5000),
        mu=S.real(n + 'mu', 1e-4, 0.05), k=S.real(n + 'k', 0.1, 1))


def build(S, dt, plat, gt, b, m, fl, kp):
    M = plat.borehole_heat_exchangers
    bh = gt.boreholes.Borehole(96., 2., 0.075, 0., 0.)
    grout = plat.media.Grout(1.0, 3901000.)
    soil = plat.media.Soil(2.0, 2343493., 18.3)
    if b == 'coaxial':
        pipe = plat.media.Pipe((0., 0.), [0.0221, 0.025], [0.0487, 0.055], 0.,
                               1e-6, [kp, kp * 1.5], 1542000.)
        return M.CoaxialPipe(m, fl, bh, pipe, grout, soil)
    n = {'s': 1, 'd': 2, 't': 3}[b[0]]
    r_out, r_in = 0.0133, 0.0108
    pos = plat.media.Pipe.place_pipes(0.0323, r_out, n)
    pipe = plat.media.Pipe(pos, r_in, r_out, 0.0323, 1e-6, kp, 1542000.)
    if n == 1:
        return M.SingleUTube(m, fl, bh, pipe, grout, soil)
    return M.MultipleUTube(m, fl, bh, pipe, grout, soil,
                           config=b.split('-')[1])


NAMES = {True: ('m_flow_borehole', 'm_flow_pipe', 'R_ff', 'R_fp', 'R_p_in',
                'R_p_out', 'R_f_a_in', 'R_f_a_out', 'R_f_in'),
         False: ('m_flow_borehole', 'm_flow_pipe', 'R_f', 'R_p', 'R_fp')}


def compare(S, what, x, fresh):
    coax = hasattr(fresh, 'R_p_in')
    for n in NAMES[coax]:
        a, c = getattr(x, n), getattr(fresh, n)
        if a is None and c is None:
            continue
        S.prove(what + ': same ' + n, abs(a - c) <= 1e-9 * (1 + abs(c)),
                (a, c))


def harness(S, case):
    dt, plat, gt = mods(S)
    M = plat.borehole_heat_exchangers
    install(S)
    b = case['b']
    if case['k'] == 'refuse':
        for cfg in ('Series!', 'both', ''):
            try:
                build(S, dt, plat, gt, 'double-' + cfg, 0.5, types.
                      SimpleNamespace(rho=998., cp=4182., mu=1e-3, k=.6), .4)
            except Exception:
                continue
            S.fail('an unknown configuration is refused', cfg)
        S.prove('unknown configurations are refused', True)
        return
    m = S.real('m_flow', 0.01, 5)
    kp = S.real('k_pipe', 0.05, 100)
    fl = fluid(S, '')
    x = build(S, dt, plat, gt, b, m, fl, kp)
    if case['k'] == 'share':
        n = {'s': 1, 'd': 2, 't': 3, 'c': 1}[b[0]]
        per = m / n if b.endswith('parallel') else m
        S.prove('the borehole carries the flow given',
                abs(x.m_flow_borehole - m) <= 1e-12)
        S.prove('every tube carries its share of the flow',
                abs(x.m_flow_pipe - per) <= 1e-9, (x.m_flow_pipe, per))
        if b == 'coaxial':
            a = (m, 0.025, 0.0487, fl.mu, fl.rho, fl.k, fl.cp, 1e-6)
            hi, ho = S.fn('h_in', a, 10, 1e5), S.fn('h_out', a, 10, 1e5)
            hc = S.fn('h', (m, 0.0221, fl.mu, fl.rho, fl.k, fl.cp, 1e-6), 10,
                      1e5)
            want = {
                'R_f_a_in': 1 / (hi * 2 * math.pi * 0.025),
                'R_f_a_out': 1 / (ho * 2 * math.pi * 0.0487),
                'R_f_in': 1 / (hc * 2 * math.pi * 0.0221),
                'R_p_in': math.log(0.025 / 0.0221) / (2 * math.pi * kp),
                'R_p_out': math.log(0.055 / 0.0487) / (
                    2 * math.pi * kp * 1.5)}
            want['R_ff'] = want['R_f_in'] + want['R_p_in'] + want['R_f_a_in']
            want['R_fp'] = want['R_p_out'] + want['R_f_a_out']
        else:
            hc = S.fn('h', (per, 0.0108, fl.mu, fl.rho, fl.k, fl.cp, 1e-6),
                      10, 1e5)
            want = {'R_f': 1 / (hc * 2 * math.pi * 0.0108),
                    'R_p': math.log(0.0133 / 0.0108) / (2 * math.pi * kp)}
            want['R_fp'] = want['R_f'] + want['R_p']
        for k, v in want.items():
            g = getattr(x, k)
            if g is None:       # R_ff, R_fp of pygfunction's own base class
                S.fail('resistance is set', k)
            S.prove('the resistance is that of its film or wall',
                    sand(g <= v * (1 + 1e-9), g >= v * (1 - 1e-9)),
                    (k, g, v))
        r = x.compute_effective_borehole_resistance()
        a = [m, fl.cp, x.R_fp] + ([x.R_ff] if b == 'coaxial' else [])
        S.prove('the borehole resistance is that of the flow and resistances',
                abs(r - S.fn('Rb', a, 0.001, 2)) <= 1e-12)
        return
    m2, f2, k2 = m, fl, kp
    out = None
    i = 0
    eff = False
    for u in case['u'].split('-'):
        i += 1
        if u == 'eff':
            eff = True
            continue
        kw = {}
        if u in ('m', 'both'):
            m2 = kw['m_flow_borehole'] = S.real('m_flow%d' % i, 0.01, 5)
        if u in ('fluid', 'both'):
            f2 = kw['fluid'] = fluid(S, str(i))
        if u == 'pipe':
            k2 = S.real('k_pipe%d' % i, 0.05, 100)
            x.pipe.k = [k2, k2 * 1.5] if b == 'coaxial' else k2
        if u == 'attr':
            # the flow changed in place, then an update
            m2 = x.m_flow_borehole = S.real('m_flow%d' % i, 0.01, 5)
        if eff:
            out = x.compute_effective_borehole_resistance(**kw)
        else:
            out = x.update_thermal_resistance(**kw)
        eff = False
    fresh = build(S, dt, plat, gt, b, m2, f2, k2)
    compare(S, 'after the update', x, fresh)
    S.prove('the update keeps the fluid', x.fluid is f2)
    r = fresh.compute_effective_borehole_resistance()
    S.observe('Rb', out)
    S.prove('the update returns the resistance of a fresh exchanger',
            abs(out - r) <= 1e-9, (out, r))
    again = x.compute_effective_borehole_resistance()
    S.prove('the resistance stays', abs(again - r) <= 1e-9, (again, r))
