"""C36 / what the long-term g-functions are computed for."""
from checks.env import *
import math

BOUNDS = ('fields of 1 to 6 (12 thorough) boreholes with arbitrary places; '
          'height, depth, radius, tilt, orientation, conductivity, heat '
          'capacity, flow and times free; one to three heights; every '
          'boundary condition and segment option')
ASSUMPTIONS = ['the g-function itself is pygfunction\'s: the request is '
               'recorded and an arbitrary curve returned']
LOGT = [-8.5, -4.5, -0.497, 3.003]


def cases(tier):
    cs = []
    for n in (1, 2, 6) if tier == 'quick' else (1, 2, 3, 6, 12):
        for b in ('MIFT', 'UHTR', 'UBWT'):
            for s in ('unequal', 'equal', 'Unequal', 'ratios'):
                if tier == 'quick' and s in ('Unequal', 'equal') and n == 6:
                    continue
                cs.append({'id': 'ask-%d-%s-%s' % (n, b, s), 'k': 'ask',
                           'n': n, 'b': b, 's': s})
    for n, h in ((1, 1), (2, 3), (4, 2)) if tier == 'quick' else (
            (1, 1), (2, 3), (4, 2), (3, 5), (7, 3)):
        for b in ('MIFT', 'UBWT'):
            cs.append({'id': 'live-%d-%d-%s' % (n, h, b), 'k': 'live', 'n': n,
                       'h': h, 'b': b})
    cs.append({'id': 'refuse', 'k': 'refuse'})
    return cs


class Rec:
    """Records what the g-function and the network are asked for."""

    def __init__(self, S, dt, gt):
        self.S, self.np = S, dt.gfunction.np
        self.bhes, self.nets, self.asks, self.ratios = [], [], [], []
        S.hook('gFunction', self.gfun)
        S.hook('Network', self.network)
        S.hook('segment_ratios', self.seg)
        rec = self

        class BHE:
            def __init__(self, m_flow_borehole, fluid, borehole, pipe, grout,
                         soil):
                self.m_flow_borehole, self.fluid = m_flow_borehole, fluid
                self.b, self.pipe, self.grout = borehole, pipe, grout
                self.soil = soil
                rec.bhes.append(self)
        self.BHE = BHE

    def seg(self, nSegments, end_length_ratio=0.02):
        r = [1. / nSegments] * nSegments
        self.ratios.append((nSegments, end_length_ratio, r))
        return r

    def network(self, boreholes, pipes, bore_connectivity=None,
                m_flow_network=None, cp_f=None, nSegments=None, **k):
        n = types.SimpleNamespace(b=boreholes, p=pipes, c=bore_connectivity,
                                  m=m_flow_network, cp=cp_f)
        self.nets.append(n)
        return n

    def gfun(self, boreholes_or_network, alpha, time=None,
             method='equivalent', boundary_condition=None, options={}, **k):
        a = types.SimpleNamespace(
            what=boreholes_or_network, alpha=alpha, time=time, method=method,
            bc=boundary_condition, options=dict(options),
            times=[scalar(t) for t in time])
        j = len(self.asks)
        a.values = [self.S.real('g%d_%d' % (j, i), -5, 60)
                    for i in range(len(a.times))]
        self.asks.append(a)
        return types.SimpleNamespace(gFunc=self.np.array(a.values),
                                     time=time, ask=a)


def medium(S, dt, plat, gt, n):
    m = types.SimpleNamespace()
    m.fluid = types.SimpleNamespace(rho=998., cp=S.real('cp', 1000, 5000),
                                    mu=1e-3, k=0.6)
    m.pipe, m.grout = object(), object()
    m.soil = plat.media.Soil(S.real('k', 0.5, 6), S.real('rhoCp', 1e6, 5e6),
                             18.3)
    m.coords = [(S.real('x%d' % i, -500, 500), S.real('y%d' % i, -500, 500))
                for i in range(n)]
    m.flow = S.real('m_flow', 0.01, 5)
    return m


def field(S, m, a, H, D, r_b, bc, rec, tilt=None, orient=None):
    """The request is for the field m.coords of boreholes H, D, r_b."""
    n = len(m.coords)
    S.prove('with the boundary condition asked for', a.bc == bc, a.bc)
    S.prove('for the diffusivity of the ground',
            abs(a.alpha * m.soil.rhoCp - m.soil.k) <= 1e-9 * 6)
    if bc == 'MIFT':
        S.prove('equal inlet temperatures are those of a network',
                any(a.what is x for x in rec.nets))
        net = a.what
        bs = list(net.b)
        S.prove('every borehole has its exchanger', len(net.p) == n)
        for p, b in zip(net.p, bs):
            S.prove('the exchanger is that of its borehole', sand(
                p.b.x == b.x, p.b.y == b.y, p.b.H == b.H))
            S.prove('every exchanger has the flow of a borehole',
                    abs(p.m_flow_borehole - m.flow) <= 1e-12)
            S.prove('every exchanger is made of the materials given',
                    p.pipe is m.pipe and p.grout is m.grout and
                    p.soil is m.soil and p.fluid is m.fluid)
        S.prove('boreholes in parallel', net.c is None or
                all(c == -1 for c in net.c))
        S.prove('the network carries the flow of all boreholes',
                abs(scalar(net.m) - n * m.flow) <= 1e-9 * n)
        S.prove('the heat capacity of the fluid',
                abs(net.cp - m.fluid.cp) <= 1e-9)
    else:
        bs = list(a.what)
    S.prove('as many boreholes as places', len(bs) == n)
    for b, (x, y) in zip(bs, m.coords):
        S.prove('a borehole at every place', sand(abs(b.x - x) <= 1e-12,
                                                  abs(b.y - y) <= 1e-12))
        S.prove('of the height, depth and radius given', sand(
            abs(b.H - H) <= 1e-12, abs(b.D - D) <= 1e-12,
            abs(b.r_b - r_b) <= 1e-12))
        if tilt is not None:
            S.prove('of the tilt and orientation given', sand(
                abs(b.tilt - tilt) <= 1e-12,
                abs(b.orientation - orient) <= 1e-12))
    S.prove('no borehole is used twice', len(set(map(id, bs))) == n)


def harness(S, case):
    dt, plat, gt = mods(S)
    rec = Rec(S, dt, gt)
    np = dt.gfunction.np
    if case['k'] == 'refuse':
        m = medium(S, dt, plat, gt, 2)
        b = gt.boreholes.Borehole(96., 2., 0.075, 0., 0.)
        for kw in ({'boundary': 'MIFTX'}, {'boundary': ''},
                   {'segments': 'some'}, {'segments': ''}):
            try:
                dt.gfunction.calculate_g_function(
                    m.flow, rec.BHE, np.array([1e6, 1e8]), m.coords, b,
                    m.fluid, m.pipe, m.grout, m.soil, **kw)
            except ValueError:
                continue
            S.fail('an unknown option is refused', kw)
        S.prove('unknown options are refused', not rec.asks)
        return
    m = medium(S, dt, plat, gt, case['n'])
    if case['k'] == 'ask':
        H, D = S.real('H', 10, 400), S.real('D', 0, 10)
        r_b = S.real('r_b', 0.03, 0.3)
        tilt, ori = S.real('tilt', 0, 0.5), S.real('orientation', 0, 6)
        b = gt.boreholes.Borehole(H, D, r_b, 7., 9., tilt, ori)
        tv = [S.real('t%d' % i, 1e5 * 10 ** i, 9e5 * 10 ** i)
              for i in range(4)]
        kw = {'boundary': case['b'], 'nSegments': 12,
              'solver': 'similarities'}
        own = [0.1, 0.2, 0.4, 0.2, 0.1]
        if case['s'] == 'ratios':
            kw.update(segments='unequal', segment_ratios=own, nSegments=5)
        else:
            kw.update(segments=case['s'], end_length_ratio=0.03)
        g = dt.gfunction.calculate_g_function(
            m.flow, rec.BHE, np.array(tv), m.coords, b, m.fluid, m.pipe,
            m.grout, m.soil, **kw)
        S.prove('one g-function is computed', len(rec.asks) == 1)
        a = rec.asks[0]
        S.prove('and returned', getattr(g, 'ask', None) is a)
        field(S, m, a, H, D, r_b, case['b'], rec, tilt, ori)
        S.prove('at the times given', len(a.times) == 4)
        S.prove('at the times given', sand(
            [abs(x - y) <= 1e-9 * 1e9 for x, y in zip(a.times, tv)]))
        S.prove('by the method asked for', a.method == 'similarities')
        S.prove('with the segments asked for',
                a.options.get('nSegments') == kw['nSegments'])
        r = a.options.get('segment_ratios')
        if case['s'] == 'equal':
            S.prove('equal segments', r is None)
        elif case['s'] == 'ratios':
            S.prove('the ratios given', r is not None and list(r) == own)
        else:
            S.prove('unequal segments of the end ratio given',
                    r is not None and len(rec.ratios) >= 1 and
                    rec.ratios[-1][0] == 12 and
                    rec.ratios[-1][1] == 0.03 and
                    list(r) == rec.ratios[-1][2])
        S.observe('alpha', a.alpha)
        return
    nh = case['h']
    # heights: free, apart from each other
    Hs, lo = [], 20.
    for i in range(nh):
        h = S.choice('H%d' % i, [30. + 40. * i, 45.5 + 40. * i])
        Hs.append(h)
    Ds = [S.choice('D%d' % i, [2., 3.25]) for i in range(nh)]
    rbs = [0.075] * nh
    B = 5.
    kw = dict(zip(('solver', 'nSegments', 'segments'), S.choice('options', [
        (), ('similarities', 12, 'equal'), ('detailed', 5, 'unequal')])))
    G = dt.gfunction.compute_live_g_function(
        B, Hs, rbs, Ds, m.flow, rec.BHE, list(LOGT), m.coords, m.fluid,
        m.pipe, m.grout, m.soil, boundary=case['b'], **kw)
    S.prove('a g-function for every height', len(rec.asks) == nh)
    alpha_n, alpha_d = m.soil.k, m.soil.rhoCp
    for i, a in enumerate(rec.asks):
        H = Hs[i]
        field(S, m, a, H, Ds[i], rbs[i], case['b'], rec)
        S.prove('by the method asked for, else equivalent boreholes',
                a.method == kw.get('solver', 'equivalent'), a.method)
        S.prove('with the segments asked for, else 8 unequal ones',
                a.options.get('nSegments') == kw.get('nSegments', 8) and
                (a.options.get('segment_ratios') is None) ==
                (kw.get('segments') == 'equal'))
        for t, lt in zip(a.times, LOGT):
            # t = exp(lt) H^2 / (9 alpha)
            w = math.exp(lt) * H * H
            S.prove('at the times of the common time axis',
                    abs(t * 9. * alpha_n - w * alpha_d)
                    <= 1e-9 * w * alpha_d, (t, lt))
        S.prove('the values are kept under their height',
                H in G.g_lts and len(G.g_lts[H]) == len(LOGT))
        S.prove('the values are kept under their height', sand(
            [abs(scalar(x) - y) <= 1e-12
             for x, y in zip(G.g_lts[H], a.values)]))
        S.prove('with their radius and depth',
                G.r_b_values[H] == rbs[i] and G.D_values[H] == Ds[i])
    S.prove('nothing else is kept', len(G.g_lts) == nh)
    S.prove('on the time axis given', list(G.log_time) == LOGT)
    S.prove('for the spacing given', G.B == B)
    S.prove('for the places given', sand(
        [sand(abs(p[0] - q[0]) <= 1e-12, abs(p[1] - q[1]) <= 1e-12)
         for p, q in zip(G.bore_locations, m.coords)]))
    S.prove('for the places given', len(G.bore_locations) == len(m.coords))
