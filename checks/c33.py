"""C33 / the excess is the worst violation of the limits."""
from checks.env import *

BOUNDS = ('any maximum and minimum and any pair of limits between -100 and '
          '200; simulated series of up to 6 (24 thorough) temperatures')
ASSUMPTIONS = []


def cases(tier):
    cs = [{'id': 'pair', 'k': 'pair'}, {'id': 'order', 'k': 'order'}]
    for n in (1, 2, 4, 6) if tier == 'quick' else (1, 2, 3, 6, 12, 24):
        for m in ('hybrid', 'hourly'):
            cs.append({'id': 'series-%s-%d' % (m, n), 'k': 'series', 'n': n,
                       'method': m})
    return cs


def make(S, dt, plat, hi, lo, **kw):
    return built_ghe(S, dt, plat, types.SimpleNamespace(
        sim_params=plat.media.SimulationParameters(1, 12, hi, lo, 135., 60.),
        **kw))


def harness(S, case):
    dt, plat, gt = mods(S)
    hi = S.real('upper_limit', -100, 200)
    lo = S.real('lower_limit', -100, 200)
    ghe = make(S, dt, plat, hi, lo)
    if case['k'] == 'pair':
        a = S.real('max', -100, 200)
        b = S.real('min', -100, 200)
        c = scalar(ghe.cost(a, b))
        S.observe('excess', c)
        tol = 1e-9
        S.prove('the excess is at least either violation',
                sand(c >= a - hi - tol, c >= lo - b - tol), (a, b, hi, lo, c))
        S.prove('the excess is one of the two violations', sor(
            abs(c - (a - hi)) <= tol, abs(c - (lo - b)) <= tol),
            (a, b, hi, lo, c))
        gap = 1e-6
        S.prove('no excess inside the limits', simplies(
            sand(a <= hi - gap, b >= lo + gap), c <= 0), (a, b, hi, lo, c))
        S.prove('an excess outside the limits', simplies(
            sor(a >= hi + gap, b <= lo - gap), c > 0), (a, b, hi, lo, c))
        return
    if case['k'] == 'order':
        # a wider range of temperatures is never better
        a, b = S.real('max', -100, 200), S.real('min', -100, 200)
        d, e = S.real('d', 0, 50), S.real('e', 0, 50)
        c1, c2 = scalar(ghe.cost(a, b)), scalar(ghe.cost(a + d, b - e))
        S.prove('a wider range never has a smaller excess', c2 >= c1 - 1e-9)
        ghe2 = make(S, dt, plat, hi + d, lo - e)
        c3 = scalar(ghe2.cost(a, b))
        S.prove('wider limits never have a larger excess', c3 <= c1 + 1e-9)
        return
    np = dt.ground_heat_exchangers.np
    n = case['n']
    T = S.reals('T', n, -50, 100)
    ghe = types.SimpleNamespace()
    ghe.B_spacing, ghe.nbh = 5., 4.
    ghe.GFunction = types.SimpleNamespace(bore_locations=[(0., 0.)] * 4)
    ghe.bhe = types.SimpleNamespace(
        b=types.SimpleNamespace(H=96., D=2., r_b=0.075),
        update_thermal_resistance=lambda *a, **k: None)
    ghe.radial_numerical = types.SimpleNamespace(
        calc_sts_g_functions=lambda *a, **k: None)
    S.patch(plat.equivalance, 'compute_equivalent', lambda bhe: bhe)
    ghe.hourly_extraction_ground_loads = [0.] * 8760
    ghe.hybrid_load = types.SimpleNamespace(
        load=np.zeros(n + 2), hour=np.arange(0., n + 2., 1.))
    ghe = make(S, dt, plat, hi, lo, **vars(ghe))
    ghe.grab_g_function = lambda *a, **k: 'g'
    ghe._simulate_detailed = lambda *a, **k: (list(T), [0.] * n)
    mx, mn = ghe.simulate(method=case['method'])
    c = scalar(ghe.cost(mx, mn))
    gap = 1e-6
    S.prove('at most zero when every temperature is inside the limits',
            simplies(sand([sand(t <= hi - gap, t >= lo + gap) for t in T]),
                     c <= 0), (c, hi, lo))
    S.prove('above zero when one temperature is outside the limits',
            simplies(sor([sor(t >= hi + gap, t <= lo - gap) for t in T]),
                     c > 0), (c, hi, lo))
    S.prove('the excess is the worst single violation', sand(
        [c >= t - hi - 1e-9 for t in T] + [c >= lo - t - 1e-9 for t in T]
        + [sor([abs(c - (t - hi)) <= 1e-9 for t in T]
               + [abs(c - (lo - t)) <= 1e-9 for t in T])]), (c, hi, lo))
