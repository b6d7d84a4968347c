"""C05 / flow rate bookkeeping from the design input to every borehole."""
from checks.env import *
import types

BOUNDS = ('volumetric flow and density arbitrary positive reals; search over '
          'domains of up to 6 (quick) / 12 fields; single exchangers of '
          '1..40 boreholes with arbitrary height limits')
ASSUMPTIONS = ['thermal response arbitrary; borehole models replaced by '
               'recorders (their constructor arguments are checked)']


def cases(tier):
    cs = []
    for flow in ('borehole', 'system'):
        for n in ((2, 4, 6) if tier == 'quick' else (2, 3, 4, 6, 8, 12)):
            cs.append({'id': 'search-%s-%d' % (flow, n), 'kind': 'search',
                       'flow': flow, 'n': n})
    for n in ((1, 2, 7, 40) if tier == 'quick' else (1, 2, 3, 7, 12, 40, 100)):
        cs.append({'id': 'ghe-%d' % n, 'kind': 'ghe', 'n': n})
    cs.append({'id': 'invalid', 'kind': 'invalid'})
    return cs


def harness(S, case):
    dt, plat, gt = mods(S)
    V = S.real('V_flow', 0.001, 50)
    rho = S.real('rho', 500, 1500)
    m = media(S, dt, plat, gt, rho=rho)
    minH, maxH = 60., 135.
    if case['kind'] == 'ghe':
        minH = S.real('min_H', 20, 80)
        maxH = minH + S.real('more_H', 1, 200)
    sp = plat.media.SimulationParameters(1, 240, 35., 5., maxH, minH)
    if case['kind'] == 'invalid':
        env = Fields(S, dt, plat, gt, lambda c, h: 1.)
        try:
            dt.search_routines.Bisection1D(
                [[(0., 0.)], [(0., 0.), (5., 0.)]], V, m.borehole,
                plat.borehole_heat_exchangers.SingleUTube, m.fluid, m.pipe,
                m.grout, m.soil, sp, m.loads, flow='per-pipe')
        except ValueError:
            S.prove('an unknown flow type is refused', True)
            return
        S.fail('an unknown flow type is refused')
    if case['kind'] == 'search':
        # a row, and from then on a row and a column at its end
        domain = [[(5. * q, 0.) for q in range(i + 1)] +
                  [(0., 5. * q) for q in range(1, i + 1)]
                  for i in range(case['n'])]
        env = Fields(S, dt, plat, gt, lambda c, h: S.fn(
            'excess', (float(len(c)), float(h)), -9, 9))
        try:
            s = dt.search_routines.Bisection1D(
                domain, V, m.borehole,
                plat.borehole_heat_exchangers.SingleUTube, m.fluid, m.pipe,
                m.grout, m.soil, sp, m.loads, flow=case['flow'])
        except ValueError:
            s = None
        for kind, coords, val, B in env.flow_log:
            n = float(len(coords))
            if kind == 'g':
                want = V / 1000. * rho if case['flow'] == 'borehole' \
                    else V / n / 1000. * rho
                S.eq('borehole mass flow behind each g-function', val, want)
            else:
                want = V * n if case['flow'] == 'borehole' else V
                S.eq('system flow of each candidate exchanger', val, want)
            want = 5. if len(coords) > 1 else m.borehole.r_b
            S.eq('spacing handed on is the spacing of the field', B, want)
        if s is not None:
            n = float(len(s.selected_coordinates))
            S.eq('system flow of the returned exchanger',
                 s.ghe.V_flow_system, V * n if case['flow'] == 'borehole'
                 else V)
        S.observe('calls', len(env.flow_log))
        return
    # one exchanger: system flow -> borehole flow -> g-functions
    n = case['n']
    coords = [(5. * q, 0.) for q in range(n)]
    made = []

    class RecBHE:
        def __init__(self, m_flow_borehole, fluid, borehole, pipe, grout,
                     soil):
            self.m_flow_borehole = m_flow_borehole
            self.fluid, self.b, self.pipe = fluid, borehole, pipe
            self.grout, self.soil = grout, soil
            made.append(self)

    class RecRN:
        def __init__(self, bhe):
            self.bhe = bhe

        def calc_sts_g_functions(self, bhe, *a, **k):
            self.t_s = 1e9
            return None
    S.patch(plat.equivalance, 'compute_equivalent', lambda b: b)
    S.patch(plat.radial_numerical_borehole, 'RadialNumericalBH', RecRN)
    gcalls = []
    real_g = dt.gfunction.compute_live_g_function

    def live(*a, **k):
        p = bind(real_g, a, k)
        gcalls.append(p)
        return types.SimpleNamespace(bore_locations=p['coordinates'],
                                     log_time=p['log_time'])
    S.patch(dt.gfunction, 'compute_live_g_function', live)
    G = types.SimpleNamespace(bore_locations=coords, log_time=[-8., 3.])
    ghe = dt.ground_heat_exchangers.BaseGHE(
        V, 5., RecBHE, m.fluid, m.borehole, m.pipe, m.grout, m.soil, G, sp,
        m.loads)
    want = V / float(n) / 1000. * rho
    S.prove('a borehole model was built', len(made) >= 1)
    for b in made:
        S.eq('borehole mass flow is the system flow shared equally',
             b.m_flow_borehole, want)
    S.eq('borehole flow times boreholes is the system flow',
         ghe.V_flow_borehole * float(n), V)
    S.observe('V_flow_borehole', ghe.V_flow_borehole)
    ghe.compute_g_functions()
    for p in gcalls:
        S.eq('long-term g-functions use the same borehole mass flow',
             p['m_flow_borehole'], want)
        hv = list(p['H_values'])
        S.prove('long-term g-functions span the height limits',
                sand([len(hv) >= 3] +
                     [sand(h >= minH - 1e-9, h <= maxH + 1e-9)
                      for h in hv] +
                     [sor([abs(h - e) <= 1e-9 for h in hv])
                      for e in (minH, maxH)]), tuple(hv))
        S.prove('long-term g-functions keep field and burial depth',
                list(p['coordinates']) == coords and
                all(d == m.borehole.D for d in p['D_values']) and
                all(r == m.borehole.r_b for r in p['r_b_values']))
    S.prove('long-term g-functions were recomputed', len(gcalls) == 1)
