"""C22 / the simulation covers the requested months."""
from checks.env import *

DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
BOUNDS = ('start month 1 to 12; end month up to 26 (62 thorough) months '
          'later; hourly loads with 14 free hours; hybrid series of five '
          'free steps; simulated temperatures arbitrary')
ASSUMPTIONS = ['a year has 365 days; temperatures themselves are C21']


def cases(tier):
    cs = []
    ends = {1: (1, 2, 3, 11, 12, 13, 18, 24), 4: (4, 9, 15, 16),
            12: (12, 13, 26)} if tier == 'quick' else {
        m: sorted({m, m + 1, m + 5, m + 11, m + 12, m + 19, m + 24, m + 50})
        for m in range(1, 13)}
    for s in ends:
        for e in ends[s]:
            cs.append({'id': 'hourly-%d-%d' % (s, e), 'k': 'hourly',
                       'start': s, 'end': e})
    for s in (1, 2, 7, 12):
        cs.append({'id': 'hybrid-%d' % s, 'k': 'hybrid', 'start': s,
                   'end': s + 2})
    return cs


def first(m):
    return 8760 * ((m - 1) // 12) + 24 * sum(DAYS[:(m - 1) % 12])


def harness(S, case):
    dt, plat, gt = mods(S)
    np = dt.ground_heat_exchangers.np
    s, e = case['start'], case['end']
    ghe = types.SimpleNamespace()
    b = types.SimpleNamespace(H=96., D=2., r_b=0.075)
    ghe.sim_params = plat.media.SimulationParameters(s, e, 35., 5., 135., 60.)
    ghe.B_spacing, ghe.nbh = 5., 4.
    ghe.GFunction = types.SimpleNamespace(bore_locations=[(0., 0.)] * 4)
    ghe.bhe = types.SimpleNamespace(
        b=b, update_thermal_resistance=lambda *a, **k: None)
    ghe.radial_numerical = types.SimpleNamespace(
        calc_sts_g_functions=lambda *a, **k: None)
    S.patch(plat.equivalance, 'compute_equivalent', lambda bhe: bhe)
    ghe.grab_g_function = lambda *a, **k: 'g'
    loads = [float((i * 37) % 1009) for i in range(8760)]
    free = sorted({0, 1, 743, 744, 8759, 8016, 8015, 5000, 2159, 2160,
                   first(s), first(s + 1) % 8760,
                   (first(e + 1) - 1) % 8760, first(e + 1) % 8760})
    for i in free:
        loads[i] = S.real('load%d' % i, -1000, 1000)
    before = list(loads)
    ghe.hourly_extraction_ground_loads = loads
    ghe.HPEFT, ghe.dTb = [], []
    z = float(first(s))
    hy_load = [0., 0.] + S.reals('hl', 5, -100, 100)
    steps = S.reals('dt', 5, 0.1, 300)
    hy_hour = [0., z]
    for d in steps:
        hy_hour.append(hy_hour[-1] + d)
    ghe.hybrid_load = types.SimpleNamespace(load=np.array(hy_load),
                                            hour=np.array(hy_hour))
    T = S.reals('T', 4, -10, 60)
    seen = []

    def detailed(Q_dot, time_values, g):
        seen.append(([scalar(v) for v in Q_dot],
                     [scalar(v) for v in time_values]))
        return list(T), [0.] * 4
    ghe._simulate_detailed = detailed
    ghe = built_ghe(S, dt, plat, ghe)
    hi, lo = ghe.simulate(method=case['k'])
    S.prove('one simulation', len(seen) == 1)
    Q, t = seen[0]
    S.prove('the maximum and minimum of the series are returned', sand(
        abs(hi - smax(T)) <= 1e-9, abs(lo - smin(T)) <= 1e-9))
    S.prove('the series is kept', len(ghe.HPEFT) == 4 and
            all(a is b_ or not is_sym(a) and a == b_
                for a, b_ in zip(ghe.HPEFT, T)))
    S.prove('the loads given are left unchanged', len(loads) == 8760 and all(
        a is c for a, c in zip(loads, before)))
    if case['k'] == 'hybrid':
        S.prove('every load step after the start is simulated',
                len(Q) == 5 and len(t) == 5)
        S.prove('hybrid loads are simulated in watts', sand(
            [abs(a - 1000. * c) <= 1e-6 for a, c in zip(Q, hy_load[2:])]))
        S.prove('times count from the start of the simulation', sand(
            [abs(a - (c - z)) <= 1e-6 for a, c in zip(t, hy_hour[2:])]), t)
        return
    a, b_ = first(s), first(e + 1)
    n = b_ - a
    S.prove('one load per hour of the simulated months',
            len(Q) == n and len(t) == n, (len(Q), len(t), n))
    S.prove('times are the hours of the simulation',
            all(t[i] == i + 1 for i in range(n)))
    want = [before[(a + i) % 8760] for i in range(n)]
    conc = [i for i in range(n) if not is_sym(want[i]) and not is_sym(Q[i])]
    rest = [i for i in range(n) if is_sym(want[i]) or is_sym(Q[i])]
    S.prove('the yearly load is repeated from the start month', sand(
        all(Q[i] == -want[i] for i in conc),
        sand([abs(Q[i] + want[i]) <= 1e-9 for i in rest]) if rest else True))
