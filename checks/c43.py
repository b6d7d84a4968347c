"""C43 / designing leaves its inputs alone and can be repeated."""
import copy
from checks.env import *

BOUNDS = ('exchangers of 1 to 4 boreholes with three hybrid or 744 to 1416 '
          'hourly load steps; years with four free hours; land sides and spacing limits '
          'free within half a metre; domains of up to 8 fields with arbitrary '
          'excess temperatures; unordered domains; every simulation height')
ASSUMPTIONS = ['borehole models and g-functions are arbitrary functions of '
               'what they are given; the height of the borehole given is set '
               'by the design']
ROUTINES = ('near-square', 'rectangle', 'bi-rectangle', 'bi-zoned')


def cases(tier):
    cs = []
    for m in ('hybrid', 'hourly'):
        for n in (1, 4) if tier == 'quick' else (1, 2, 4, 9):
            cs.append({'id': 'simulate-%s-%d' % (m, n), 'k': 'simulate',
                       'm': m, 'n': n})
    cs.append({'id': 'simulate-both', 'k': 'simulate', 'm': 'both', 'n': 2})
    cs.append({'id': 'loads', 'k': 'loads'})
    for r in ROUTINES:
        cs.append({'id': 'domain-' + r, 'k': 'domain', 'r': r})
        cs.append({'id': 'domain-%s-wide' % r, 'k': 'domain', 'r': r,
                   'swap': True})
        for f in ('borehole', 'system'):
            cs.append({'id': 'design-%s-%s' % (r, f), 'k': 'design', 'r': r,
                       'f': f})
    for w in ('1D', '2D', 'ZD'):
        cs.append({'id': 'search-' + w, 'k': 'search', 'w': w})
    cs.append({'id': 'polygon', 'k': 'polygon'})
    for n in (1, 3):
        cs.append({'id': 'gfunction-%d' % n, 'k': 'gfunction', 'n': n})
    return cs


class Inputs:
    """A picture of the inputs, to compare with later."""

    def __init__(self, S, skip=(), **objs):
        self.S, self.objs, self.skip = S, objs, set(skip)
        self.was = {n: self.flat(o) for n, o in objs.items()}

    def flat(self, o, path=''):
        out = []
        if isinstance(o, (list, tuple)):
            out.append((path, len(o)))
            for i, v in enumerate(o):
                out += self.flat(v, '%s[%d]' % (path, i))
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                out += self.flat(o[k], '%s.%s' % (path, k))
        elif hasattr(o, '__dict__') and not isinstance(o, type) and \
                not is_sym(o) and not callable(o):
            for k in sorted(vars(o)):
                if k not in self.skip:
                    out += self.flat(vars(o)[k], '%s.%s' % (path, k))
        else:
            out.append((path, o))
        return out

    def check(self, when):
        S = self.S
        for n, o in self.objs.items():
            now = self.flat(o)
            was = self.was[n]
            S.prove('the inputs keep their shape',
                    [p for p, _ in now] == [p for p, _ in was] and
                    all(a is b or type(a) == type(b) or
                        isinstance(a, (int, float)) or is_sym(a) or is_sym(b)
                        for (_, a), (_, b) in zip(was, now)),
                    (when, n, len(was), len(now)))
            both = [(a, b) for (_, a), (_, b) in zip(was, now) if a is not b]
            same = [same_value(a, b) for a, b in both]
            S.prove('the inputs keep their values',
                    sand(same) if same else True, (when, n))


def same_value(a, b):
    if is_sym(a) or is_sym(b) or isinstance(a, (int, float)):
        return abs(a - b) <= 0
    try:
        return bool(a == b)
    except Exception:
        return True


def same_lists(S, label, a, b, tol=1e-9):
    S.prove(label, len(a) == len(b), (len(a), len(b)))
    d = [abs(scalar(x) - scalar(y)) <= tol for x, y in zip(a, b)
         if x is not y]
    S.prove(label, sand(d) if d else True)


def year(S, n=4):
    h = [float((i * 37) % 101) - 50. for i in range(8760)]
    for i in (0, 31, 743, 8759)[:n]:
        h[i] = S.real('load%d' % i, -1000, 1000)
    return h


def simulate(S, case, dt, plat, gt):
    np = dt.ground_heat_exchangers.np
    n = case['n']
    cls = dt.ground_heat_exchangers.GHE
    e = media(S, dt, plat, gt)
    e.soil.ugt = S.real('ugt', 5, 25)
    M = plat.borehole_heat_exchangers

    class BHE:
        def __init__(self, m_flow_borehole, fluid, borehole, pipe, grout,
                     soil):
            self.m_flow_borehole = m_flow_borehole
            self.fluid, self.b, self.pipe = fluid, borehole, pipe
            self.grout, self.soil = grout, soil

        def update_thermal_resistance(self, m_flow_borehole=None, fluid=None):
            return self.Rb()

        def Rb(self):
            return S.fn('Rb', (self.m_flow_borehole, self.fluid.cp,
                               self.b.H), 0.01, 1)

        def compute_effective_borehole_resistance(self, *a):
            return self.Rb()

    class RN:
        def __init__(self, bhe):
            self.t_s = bhe.b.H ** 2 / (9. * 8e-7)
            self.g_sts = None

        def calc_sts_g_functions(self, bhe, *a, **k):
            self.__init__(bhe)
    S.patch(plat.equivalance, 'compute_equivalent', lambda b: b)
    S.patch(plat.radial_numerical_borehole, 'RadialNumericalBH', RN)
    steps = [400., 744., 1416.]
    q = S.reals('q', 3, -50, 50)
    S.patch(plat.ground_loads, 'HybridLoad', type('HL', (), {
        '__init__': lambda self, *a, **k: self.__dict__.update(
            load=np.array([0., 0.] + q), hour=np.array([0., 0.] + steps)),
        'split_heat_and_cool': staticmethod(
            lambda h, units='W': ([0.] * len(h), [0.] * len(h)))}))
    sp = plat.media.SimulationParameters(1, 2, 35., 5., 135., 60.)
    coords = [(5. * i, 0.) for i in range(n)]
    G = types.SimpleNamespace(bore_locations=coords, log_time=[-8., 3.])
    loads = year(S)
    V = S.real('V_flow', 0.01, 5)
    before = Inputs(S, skip=('H',), loads=loads, soil=e.soil, grout=e.grout,
                    pipe=e.pipe, fluid=e.fluid, sp=sp, coords=coords,
                    borehole=e.borehole)
    x = cls(V, 5., BHE, e.fluid, e.borehole, e.pipe, e.grout, e.soil, G, sp,
            loads)
    before.check('after building')
    x.grab_g_function = lambda B_over_H: lambda v: np.array(
        [S.fn('g', (scalar(t),), -5, 60) for t in v])
    if case['m'] != 'hybrid':
        real = cls._simulate_detailed

        def detailed(self, Q, t, g):
            if len(Q) == 3:
                return real(self, Q, t, g)
            v = [scalar(Q[i]) for i in (0, 31, 743, len(Q) - 1)]
            return [S.fn('T%d' % j, tuple(v) + (self.bhe.b.H,), -20, 80)
                    for j in range(2)], [0., 0.]
        S.patch(cls, '_simulate_detailed', detailed)
    order = {'hybrid': ['hybrid'] * 3, 'hourly': ['hourly'] * 3,
             'both': ['hybrid', 'hourly', 'hybrid']}[case['m']]
    heights = [96., 120., 96.]
    res = []
    for m, H in zip(order, heights):
        x.bhe.b.H = H
        hi, lo = x.simulate(method=m)
        before.check('after simulating')
        S.prove('the height is the one given', scalar(x.bhe.b.H) == H)
        res.append([hi, lo] + list(x.HPEFT))
    same_lists(S, 'a simulation can be repeated', res[0], res[2])


def loads(S, case, dt, plat, gt):
    from checks import c41
    gl = plat.ground_loads
    c41.linear(S, gl.Loads)
    rej, d, w1 = c41.year_of(S, 2019, 'r')
    ext = [0.] * 8760
    ext[24 * 40 + 3] = S.real('e1', 1, 100)
    q = [S.real('q0', -100, 100)] + [5., -5.] * 20
    bhe = types.SimpleNamespace(soil=types.SimpleNamespace(k=2.),
                                compute_effective_borehole_resistance=
                                lambda *a, **k: 0.1)
    rn = types.SimpleNamespace(g_sts=None, t_s=1.5e9)
    sp = plat.media.SimulationParameters(1, 3, 35., 5., 135., 60.)
    before = Inputs(S, rej=rej, ext=ext, q=q, sp=sp)
    a = gl.HybridLoad(rej, ext, bhe, rn, sp)
    before.check('after the hybrid load')
    b = gl.HybridLoad(rej, ext, bhe, rn, sp)
    before.check('after another hybrid load')
    same_lists(S, 'the same loads make the same hybrid load', list(a.load),
               list(b.load))
    same_lists(S, 'the same loads make the same hybrid load', list(a.hour),
               list(b.hour))
    for _ in range(2):
        gl.HybridLoad.split_heat_and_cool(q)
        before.check('after splitting')
    p = a.hourly_load_representation()
    r = a.hourly_load_representation()
    same_lists(S, 'the hourly loads can be rebuilt again', p[0], r[0])
    same_lists(S, 'the hourly loads can be rebuilt again', p[1], r[1])
    before.check('after rebuilding')


def flat(d):
    if isinstance(d, (list, tuple)):
        return [w for v in d for w in flat(v)]
    return [d]


def build(dt, r, c):
    from checks import c34
    return c34.expected(dt, r, c)


def domain(S, case, dt, plat, gt):
    from checks import c34
    c = c34.constraints(S, case['r'], case.get('swap'))
    a = build(dt, case['r'], c)
    was = [len(f) for f in a]
    b = build(dt, case['r'], c)
    S.prove('the same land gives the same domain', was == [len(f) for f in b])
    same_lists(S, 'the same land gives the same domain', flat(a), flat(b))
    # a field that is changed afterwards changes no other
    other = flat(a[1:])
    if isinstance(a[0], list):
        a[0].clear()
    S.prove('fields do not share their boreholes',
            len(flat(a[1:])) == len(other))


def polygon(S, case, dt, plat, gt):
    prop = [[0., 0.], [30., 0.], [30., 20.3], [0., 20.3]]
    build_ = [[4., 4.], [12., 4.], [12., 12.], [4., 12.]]
    before = Inputs(S, prop=prop, building=build_)
    a = dt.domains.polygonal_land_constraint(prop, 5.2, 10., 10.1,
                                             building_description=build_)
    before.check('after the constraints')
    b = dt.domains.polygonal_land_constraint(prop, 5.2, 10., 10.1,
                                             building_description=build_)
    before.check('after the constraints again')
    S.prove('the same land gives the same domain',
            [[len(f) for f in d] for d in a] ==
            [[len(f) for f in d] for d in b])
    same_lists(S, 'the same land gives the same domain', flat(a), flat(b))
    f = [(1., 1.), (5., 5.), (40., 1.)]
    x = S.real('x', 13., 29.)
    f.append((x, 2.))
    dom = [list(f), f[:2]]
    before = Inputs(S, f=f, prop=prop, dom=dom)
    dt.feature_recognition.remove_cutout(f, boundary=prop,
                                         remove_inside=False)
    dt.feature_recognition.scale_coordinates(f, 3.)
    dt.feature_recognition.determine_largest_rectangle(prop)
    dt.domains.reorder_domain(dom)
    dt.coordinates.transpose_coordinates(f)
    before.check('after the helpers')


def design(S, case, dt, plat, gt):
    r = case['r']
    e = media(S, dt, plat, gt)
    c = {'near-square': dict(B=5., length=16.),
         'rectangle': dict(length=18., width=9., B_min=4., B_max_x=7.),
         'bi-rectangle': dict(length=12.5, width=10.5, B_min=5.2, B_max_x=7.,
                              B_max_y=6.),
         'bi-zoned': dict(length=12.5, width=10.5, B_min=5.2, B_max_x=7.,
                          B_max_y=6.)}[r]
    gc = dt.media.GeometricConstraints(**c)
    seen = {}

    def excess(coords, H):
        k = env.key(coords)
        v = S.fn('excess', (k, float(H)), -50, 50)
        if (k, H) not in seen:
            for (j, h), (m, u) in list(seen.items()):
                # more boreholes, or deeper ones, are never hotter
                if m <= len(coords) and h <= float(H):
                    S.assume(u >= v)
                elif m >= len(coords) and h >= float(H):
                    S.assume(v >= u)
            seen[(k, H)] = (len(coords), v)
        return v

    def size(coords):
        return S.fn('H', (env.key(coords),), 60, 135)
    env = Fields(S, dt, plat, gt, excess, size=size)
    sp = plat.media.SimulationParameters(1, 240, 35., 5., 135., 60.)
    before = Inputs(S, skip=('H',), loads=e.loads, soil=e.soil, gc=gc,
                    grout=e.grout, pipe=e.pipe, fluid=e.fluid, sp=sp,
                    borehole=e.borehole)
    d = dt.design.Design(
        0.4, e.borehole, plat.borehole_heat_exchangers.SingleUTube, e.fluid,
        e.pipe, e.grout, e.soil, sp, gc, e.loads, routine=r, flow=case['f'])
    before.check('after the design is set up')
    dom = d.coordinates_domain if hasattr(d, 'coordinates_domain') else \
        d.coordinates_domain_nested
    kept = Inputs(S, dom=dom)
    out = []
    for _ in range(2):
        try:
            s = d.find_design()
            out.append((s.selection_key, list(s.selected_coordinates),
                        s.ghe.bhe.b.H))
        except ValueError as x:
            out.append(('error', [], 0.))
        before.check('after the design')
        kept.check('after the design')
    a, b = out
    S.prove('a design can be repeated', a[0] == b[0] and a[1] == b[1],
            (a[0], b[0]))
    S.prove('a design can be repeated', abs(scalar(a[2]) - scalar(b[2]))
            <= 1e-9, (a[2], b[2]))


def search(S, case, dt, plat, gt):
    """Fields given in any order stay as and where they are."""
    e = media(S, dt, plat, gt)

    def excess(coords, H):
        return S.fn('excess', (len(coords), float(H)), -50, 50)

    env = Fields(S, dt, plat, gt, excess, size=lambda c: S.fn(
        'H', (len(c),), 60, 135))
    line = lambda n, y=0.: [(5. * i, y) for i in range(n)]
    a = [line(n) for n in (6, 1, 4)]
    b = [line(n, 3.) for n in (9, 2, 12)]
    w = case['w']
    dom = a if w == '1D' else [a, b]
    sp = plat.media.SimulationParameters(1, 240, 35., 5., 135., 60.)
    before = Inputs(S, skip=('H',), dom=dom, loads=e.loads, soil=e.soil,
                    grout=e.grout, pipe=e.pipe, fluid=e.fluid, sp=sp)
    cls = getattr(dt.search_routines, 'Bisection' + w)
    try:
        cls(dom, 0.4, e.borehole, plat.borehole_heat_exchangers.SingleUTube,
            e.fluid, e.pipe, e.grout, e.soil, sp, e.loads)
    except ValueError:
        pass
    before.check('after the search')


def gfunction(S, case, dt, plat, gt):
    from checks import c36
    rec = c36.Rec(S, dt, gt)
    m = c36.medium(S, dt, plat, gt, case['n'])
    m.soil.k = 2.
    logt, H = list(c36.LOGT), [60., 97.5, 135.]
    rb, D = [0.075] * 3, [2.] * 3
    before = Inputs(S, logt=logt, H=H, rb=rb, D=D, coords=m.coords,
                    soil=m.soil, fluid=m.fluid)
    for _ in range(2):
        g = dt.gfunction.compute_live_g_function(
            5., H, rb, D, m.flow, rec.BHE, logt, m.coords, m.fluid, m.pipe,
            m.grout, m.soil)
        before.check('after the g-function')
    n = len(rec.asks) // 2
    for a, b in zip(rec.asks[:n], rec.asks[n:]):
        same_lists(S, 'the same g-function is asked for again', a.times,
                   b.times, 1e-3)
    curves = Inputs(S, g=g.g_lts, rb=g.r_b_values, logt=g.log_time,
                    at=g.bore_locations)
    g.correct_coordinates(7.)
    f = [S.real('v%d' % i, -5, 60) for i in range(4)]
    own = Inputs(S, f=f)
    dt.gfunction.GFunction.borehole_radius_correction(f, 0.075, 0.1)
    own.check('after the radius correction')
    curves.check('after rescaling')


def harness(S, case):
    dt, plat, gt = mods(S)
    globals()[case['k']](S, case, dt, plat, gt)
