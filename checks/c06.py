"""C06 / sizing an exchanger."""
from checks.env import *
import warnings

BOUNDS = ('height limits arbitrary reals in [5, 500] m at least 1 m apart; '
          'excess temperature any strictly decreasing function of height; hot '
          'or cold limit governing; hybrid and hourly simulation')
ASSUMPTIONS = [
    'the simulated excess temperature is a strictly decreasing function of '
    'the height (thermal models replaced by an arbitrary such function)',
    'brentq is replaced by its contract: result within the bounds, sign '
    'change within twice its tolerance, whenever it is allowed 20 '
    'iterations']


def cases(tier):
    cs = []
    for side in ('hot', 'cold', 'flat'):
        for method in ('hybrid', 'hourly'):
            cs.append({'id': '%s-%s' % (side, method), 'side': side,
                       'method': method})
    cs.append({'id': 'slow', 'side': 'flat', 'method': 'hybrid',
               'slow': True})
    cs.append({'id': 'bad-method', 'side': 'hot', 'method': 'daily'})
    return cs


def harness(S, case):
    dt, plat, gt = mods(S)
    np = __import__('numpy')
    slow = case.get('slow')
    if slow:
        S.slow_roots(20)
    lo = 20. if slow else S.real('min_height', 5, 400)
    hi = 120. if slow else S.real('max_height', 6, 500)
    S.assume(hi >= lo + 1)
    H0 = S.real('start_height', 5, 500)
    hot, cold = 35., 5.
    sp = plat.media.SimulationParameters(1, 12, hot, cold, hi, lo)
    ghe = types.SimpleNamespace()
    b = types.SimpleNamespace(H=H0, D=2., r_b=0.075)
    ghe.sim_params = sp
    ghe.B_spacing, ghe.nbh = 5., 4.
    ghe.GFunction = types.SimpleNamespace(bore_locations=[(0., 0.)] * 4)
    log = {'eq': [], 'sts': [], 'g': [], 'sim': [], 'upd': []}
    ghe.bhe = types.SimpleNamespace(
        b=b, update_thermal_resistance=lambda *a, **k: log['upd'].append(b.H))
    ghe.radial_numerical = types.SimpleNamespace(
        calc_sts_g_functions=lambda bhe, *a, **k: log['sts'].append(bhe.H))
    ghe.hybrid_load = types.SimpleNamespace(
        load=np.array([0., 0., 7., 8., 9.]), hour=np.array([0., 0., 1, 2, 3]))
    ghe.hourly_extraction_ground_loads = [3.] * 8760
    ghe.HPEFT, ghe.dTb = [], []

    def equiv(bhe):
        log['eq'].append(bhe.b.H)
        return types.SimpleNamespace(H=bhe.b.H, b=types.SimpleNamespace(
            H=bhe.b.H))
    S.patch(plat.equivalance, 'compute_equivalent', equiv)

    def grab(B_over_H, *a, **k):
        log['g'].append(B_over_H)
        return 'g'
    ghe.grab_g_function = grab

    def excess(h):
        if slow and not S.sym:
            # of the decreasing functions, one that is flat around its root
            return -14. * ((h - lo) / (hi - lo) - .05) ** 3
        return S.curve('excess', h, -14, 60, mono='dec')

    def temps(h):
        e = excess(h)
        if case['side'] == 'hot':
            return [hot + e - 1., hot + e, cold - e + 1.5]
        if case['side'] == 'cold':
            return [cold - e, hot + e - 2., cold - e + 1.]
        return [hot + e, cold - e]

    def detailed(Q_dot, time_values, g):
        log['sim'].append((len(Q_dot), ghe.bhe.b.H))
        S.prove('the simulation method asked for is the one simulated',
                len(Q_dot) == (3 if case['method'] == 'hybrid' else 8760))
        return temps(ghe.bhe.b.H), [0.]
    ghe._simulate_detailed = detailed
    ghe = built_ghe(S, dt, plat, ghe)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            ghe.size(method=case['method'])
        except ValueError as e:
            S.prove('sizing never fails for a valid method',
                    case['method'] == 'daily')
            return
    S.prove('an unknown method is refused', case['method'] != 'daily')
    nw = len([x for x in w if issubclass(x.category, UserWarning)])
    H = ghe.bhe.b.H
    S.observe('H', H)
    elo, ehi = excess(lo), excess(hi)
    S.prove('the height is inside the limits', sand(H >= lo, H <= hi),
            (lo, H, hi))
    S.prove('an oversized exchanger gets the minimum height',
            simplies(elo < 0, H == lo), (elo, H, lo))
    S.prove('an undersized exchanger gets the maximum height',
            simplies(ehi > 0, H == hi), (ehi, H, hi))
    d = 2e-3
    inside = sand(elo > 0, ehi < 0)
    if inside:
        S.prove('the root is within the tolerance of the height',
                sand(sor(H - d <= lo, excess(H - d) >= 0),
                     sor(H + d >= hi, excess(H + d) <= 0)), (H,))
    if sor(elo < 0, ehi > 0):
        S.prove('a limit that stops the sizing is announced', nw >= 1)
    else:
        if sand(H > lo, H < hi):
            S.prove('no warning for a height inside the limits', nw == 0)
    want = temps(H)
    S.prove('temperatures are stored', len(ghe.HPEFT) == len(want))
    for a, c in zip(ghe.HPEFT, want):
        S.eq('the stored temperatures belong to the height', a, c)
    S.prove('the equivalent exchanger belongs to the height',
            ghe.bhe_eq.H == H)
    S.prove('the short-time response belongs to the height',
            len(log['sts']) > 0 and log['sts'][-1] == H)
    S.eq('the long-time response belongs to the height', log['g'][-1] * H, 5.)
