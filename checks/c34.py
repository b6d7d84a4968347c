"""C34 / designs build their domain and start the matching search."""
from checks.env import *

BOUNDS = ('near-square land of up to 7 spacings, and of 36; rectangles of up to 6 by 4 '
          'rows with lengths and spacings free inside half a metre; every '
          'flow; all four routines, both simulation methods and both flow '
          'kinds; one missing constraint at a time')
ASSUMPTIONS = ['the searches themselves are C01 to C04, the domains C07 to '
               'C10: only what is handed to them is judged here']
ROUTINES = {'near-square': 'Bisection1D', 'rectangle': 'Bisection1D',
            'bi-rectangle': 'Bisection2D', 'bi-zoned': 'BisectionZD'}
NEEDS = {'near-square': ('B', 'length'),
         'rectangle': ('length', 'width', 'B_min', 'B_max_x'),
         'bi-rectangle': ('length', 'width', 'B_min', 'B_max_x', 'B_max_y'),
         'bi-zoned': ('length', 'width', 'B_min', 'B_max_x', 'B_max_y')}


def cases(tier):
    cs = []
    for r in ROUTINES:
        for m in ('hybrid', 'hourly'):
            for f in ('borehole', 'system'):
                cs.append({'id': '%s-%s-%s' % (r, m, f), 'k': 'design',
                           'r': r, 'm': m, 'f': f})
        cs.append({'id': r + '-default', 'k': 'design', 'r': r, 'm': None,
                   'f': None})
        cs.append({'id': r + '-refuse', 'k': 'refuse', 'r': r})
        if r != 'near-square':
            cs.append({'id': r + '-wide', 'k': 'design', 'r': r, 'm': None,
                       'f': None, 'swap': True})
        if r in ('near-square', 'rectangle'):
            # constraints of other routines given as well
            cs.append({'id': r + '-extra', 'k': 'design', 'r': r, 'm': None,
                       'f': None, 'extra': True})
    cs.append({'id': 'near-square-large', 'k': 'design', 'r': 'near-square',
               'm': None, 'f': None, 'large': 36})
    cs.append({'id': 'unknown-routine', 'k': 'unknown', 'r': 'rectangle'})
    cs.append({'id': 'unknown-method', 'k': 'method'})
    return cs


def setup(S, dt, plat, gt):
    """Searches become recorders (the classes keep their identity)."""
    seen = []
    sr = dt.search_routines
    for n in ('Bisection1D', 'Bisection2D', 'BisectionZD'):
        cls = getattr(sr, n)
        real = cls.__init__

        def init(self, *a, _real=real, **k):
            seen.append((type(self).__name__, bind(_real, (self,) + a, k)))
        S.patch(cls, '__init__', init)
    return seen


def constraints(S, r, swap, large=None):
    c = {}
    if large:
        c['B'] = 5.
        c['length'] = S.real('length', 5. * large - 5.5, 5. * large)
        return c
    if r == 'near-square':
        c['B'] = S.real('B', 3, 8)
        c['length'] = S.real('length', 3, 50)
        S.assume(sand(c['length'] >= c['B'], c['length'] <= 6.5 * c['B']))
        return c
    a, b = S.real('long', 27., 27.4), S.real('short', 12.1, 12.5)
    c['length'], c['width'] = (b, a) if swap else (a, b)
    c['B_min'] = S.real('B_min', 5.1, 5.3)
    c['B_max_x'] = S.real('B_max_x', 9.4, 9.8)
    if r != 'rectangle':
        c['B_max_y'] = S.real('B_max_y', 7.1, 7.5)
    return c


def expected(dt, r, c):
    d = dt.domains
    if r == 'near-square':
        n = dt.utilities.number_of_boreholes(
            c['length'], c['B'], func=dt.domains.np.floor)
        return d.square_and_near_square(1, n, c['B'])
    if r == 'rectangle':
        return d.rectangular(c['length'], c['width'], c['B_min'],
                             c['B_max_x'])
    f = d.bi_rectangle_nested if r == 'bi-rectangle' \
        else d.bi_rectangle_zoned_nested
    return f(c['length'], c['width'], c['B_min'], c['B_max_x'], c['B_max_y'])


def flat(d):
    """Nested lists down to coordinates, with the structure."""
    out, shape = [], []

    def go(v):
        if isinstance(v, tuple) or (isinstance(v, list) and len(v) == 2 and
                                    not isinstance(v[0], (list, tuple))):
            out.extend(scalar(e) for e in v)
            return 'p'
        return [go(e) for e in v]
    return go(d), out


def harness(S, case):
    dt, plat, gt = mods(S)
    Design = dt.design.Design
    if case['k'] == 'method':
        ghe = types.SimpleNamespace()
        b = types.SimpleNamespace(H=96., D=2., r_b=0.075)
        ghe.bhe = types.SimpleNamespace(
            b=b, update_thermal_resistance=lambda *a, **k: None)
        ghe.B_spacing = 5.
        ghe.radial_numerical = types.SimpleNamespace(
            calc_sts_g_functions=lambda *a, **k: None)
        S.patch(plat.equivalance, 'compute_equivalent', lambda x: x)
        ghe.grab_g_function = lambda *a, **k: 'g'
        ghe._simulate_detailed = lambda *a, **k: ([1.], [1.])
        ghe = built_ghe(S, dt, plat, ghe)
        for m in ('monthly', 'Hybrid ', '', None):
            try:
                ghe.simulate(method=m)
            except Exception:
                continue
            S.fail('an unknown simulation method is refused', m)
        S.prove('unknown simulation methods are refused', True)
        return
    seen = setup(S, dt, plat, gt)
    e = media(S, dt, plat, gt)
    V = S.real('V_flow', 0.01, 50)
    sp = plat.media.SimulationParameters(1, 24, 35., 5., 135., 60.)
    r = case['r']
    c = constraints(S, r, case.get('swap'), case.get('large'))
    loads = e.loads

    more = {}
    if case.get('extra'):
        more['B_max_y'] = S.real('B_max_y', 3, 12)
        if r == 'rectangle':
            more['B'] = S.real('B', 3, 12)
        else:
            more['width'] = S.real('width', 3, 60)
            more['B_min'] = S.real('B_min', 2, 8)
            more['B_max_x'] = S.real('B_max_x', 3, 12)

    def make(c, r, **kw):
        c = dict(c, **more)
        gc = dt.media.GeometricConstraints(**c)
        return Design(V, e.borehole, plat.borehole_heat_exchangers.SingleUTube,
                      e.fluid, e.pipe, e.grout, e.soil, sp, gc, loads,
                      routine=r, **kw)
    if case['k'] == 'unknown':
        for name in ('square', 'near square', '', 'Rectangle '):
            try:
                make(c, name).find_design()
            except Exception:
                S.prove('no search starts', not seen)
                continue
            S.fail('an unknown routine is refused', name)
        S.prove('unknown routines are refused', True)
        return
    if case['k'] == 'refuse':
        for n in NEEDS[r]:
            d = dict(c)
            d[n] = None
            try:
                make(d, r)
            except Exception:
                continue
            S.fail('a missing constraint is refused', n)
        S.prove('missing constraints are refused', True)
        return
    kw = {}
    if case['m']:
        kw = {'method': case['m'], 'flow': case['f']}
    design = make(c, r, **kw)
    S.prove('no search before it is asked for', not seen)
    got = design.find_design()
    name = ROUTINES[r]
    S.prove('one search of the matching kind', len(seen) == 1 and
            seen[0][0] == name and
            type(got) is getattr(dt.search_routines, name),
            [s[0] for s in seen])
    p = seen[0][1]
    S.prove('the flow is handed on', abs(p['V_flow'] - V) <= 1e-12)
    for n, v in (('borehole', e.borehole), ('fluid', e.fluid),
                 ('pipe', e.pipe), ('grout', e.grout), ('soil', e.soil),
                 ('sim_params', sp),
                 ('bhe_object', plat.borehole_heat_exchangers.SingleUTube)):
        S.prove('the design inputs are handed on', p[n] is v, n)
    q = p['hourly_extraction_ground_loads']
    S.prove('the loads are handed on',
            q is loads or list(q) == list(loads))
    S.prove('the simulation method is handed on',
            p['method'] == (case['m'] or 'hybrid'), p['method'])
    S.prove('the kind of flow is handed on',
            p['flow'] == (case['f'] or 'borehole'), p['flow'])
    dom = p.get('coordinates_domain', p.get('coordinates_domain_nested'))
    want = expected(dt, r, c)
    s1, v1 = flat(dom)
    s2, v2 = flat(want)
    S.prove('the domain has the fields of the land', s1 == s2)
    S.prove('the domain is that of the land and spacings', sand(
        [abs(a - b) <= 1e-9 for a, b in zip(v1, v2)]))
    if r == 'near-square':
        n = int(max(len(fld) for fld in dom) ** 0.5)
        S.prove('fields go up to n by n + 1',
                max(len(fld) for fld in dom) == n * (n + 1))
        rows = [0, 0]
        for k, w in enumerate((-1e-6, 1e-6)):
            while rows[k] * c['B'] <= c['length'] + w and rows[k] < 60:
                rows[k] += 1
        S.prove('as many rows as fit into the length',
                rows[0] <= n <= rows[1], (n, rows))
