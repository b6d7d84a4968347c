"""C19 / duration of the monthly peaks."""
from checks.env import *
import math

BOUNDS = ('fluid response of series of up to 4 (5 thorough) hours with any '
          'loads, and of 48 hours with ten free loads; peak search on any increasing 48 h response to the peak and '
          'up to 3 free hours of the nominal response; windows of two days '
          'with 4 free hours for the hand-over of peaks and averages')
ASSUMPTIONS = ['the short-time g-function increases, and with the borehole '
               'resistance is positive after one hour',
               'the response to the nominal load exceeds that to the peak '
               'load nowhere (decided separately for series of up to 5 hours)']


def cases(tier):
    n = 4 if tier == 'quick' else 5
    cs = [{'id': 'response-%d' % k, 'k': 'sim', 'n': k}
          for k in range(1, n + 1)]
    cs += [{'id': 'two-days', 'k': 'long', 'n': 48}]
    cs += [{'id': 'below-peak-%d' % k, 'k': 'order', 'n': k}
           for k in range(1, n + 1)]
    for i, h in enumerate(([48], [1, 30], [5, 20, 47], [2, 3, 4])):
        if tier == 'quick' and i == 3:
            continue
        cs.append({'id': 'duration-%d' % i, 'k': 'dur', 'hours': h})
    for m in (1, 2, 12):
        cs.append({'id': 'window-%d' % m, 'k': 'find', 'm': m})
    return cs


def make(plat, **kw):
    L = built_loads(plat, types.SimpleNamespace())
    L.days_in_month = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    L.monthly_two_day_fluid_temps_nm = [[0]]
    L.monthly_two_day_fluid_temps_pk = [[0]]
    L.monthly_peak_duration = [0] * 13
    L.monthly_average = [0.] * 13
    L.monthly_peak = [0.] * 13
    L.g_sts, L.ts, L.two_pi_k, L.Rb = None, 1e9, 12., 0.1
    for k, v in kw.items():
        setattr(L, k, v)
    return L


def harness(S, case):
    import numpy as np
    dt, plat, gt = mods(S)
    gl = plat.ground_loads
    if S.sym:
        np = gl.np
    k = case['k']
    if k == 'long':
        # all of the two days, with loads of some hours free
        n, ts, c, Rb = 48, 2.0e9, 14.5, .13
        gv = [0.] + [.4 * math.log(1 + 3. * h) + .01 * (h % 5)
                     for h in range(1, n + 1)]

        def curve(a):
            return np.array([gv[round(math.exp(float(scalar(v))) * ts /
                                      3600.)] for v in a])
        q = [0.] + [((7 * i) % 11 - 3) * 2.5 for i in range(1, n + 1)]
        for i in (1, 2, 9, 23, 24, 25, 31, 40, 47, 48):
            q[i] = S.real('q%d' % i, -100, 100)
        t = np.array(list(range(n + 1)))
        dT = [scalar(v) for v in gl.Loads.simulate_hourly(
            t, np.array(q), curve, Rb, c, ts)]
        S.prove('one temperature per hour', len(dT) == n + 1)
        for j in range(1, n + 1):
            e = q[j] * Rb
            for i in range(1, j + 1):
                e = e + (q[i] - q[i - 1]) * (gv[j - i + 1] / c)
            S.prove('the response superposes the load steps',
                    sabs(dT[j] - e) <= 1e-6, j)
        return
    if k in ('sim', 'order'):
        n = case['n']
        ts = 2.0e9
        Rb = S.real('Rb', 0.01, 1)
        c = S.real('two_pi_k', 1, 30)

        def g_at(hours):
            return S.curve('g', math.log(hours * 3600. / ts), -20, 50,
                           mono='inc')

        def g(a):
            a = [scalar(v) for v in a]
            out = []
            for v in a:
                h = math.exp(float(v)) * ts / 3600.
                S.prove('the response is taken at whole hours',
                        abs(h - round(h)) <= 1e-6)
                out.append(g_at(round(h)))
            return np.array(out)
        q = [0.] + [S.real('q%d' % i, -100 if k == 'order' else -50, 100)
                    for i in range(n)]
        t = np.array(list(range(n + 1)))
        dT = gl.Loads.simulate_hourly(t, np.array(q), g, Rb, c, ts)
        dT = [scalar(v) for v in dT]
        S.prove('one temperature per hour', len(dT) == n + 1)
        S.prove('no change before the first load', dT[0] == 0)
        if k == 'sim':
            for j in range(1, n + 1):
                e = 0.
                for i in range(1, j + 1):
                    e = e + (q[i] - q[i - 1]) * g_at(j - i + 1)
                S.prove('the response superposes the load steps',
                        abs((dT[j] - q[j] * Rb) * c - e) <= 1e-6, j)
            return
        # a load that never exceeds the peak stays below the peak response
        Q = S.real('Q', 0, 100)
        S.assume(sand([v <= Q for v in q[1:]]))
        S.assume(g_at(1) + c * Rb >= 0)
        pk = gl.Loads.simulate_hourly(
            t, np.array([0.] + [Q] * n), g, Rb, c, ts)
        pk = [scalar(v) for v in pk]
        S.prove('a load below the peak stays below its response', sand(
            [a <= b + 1e-6 for a, b in zip(dT, pk)]))
        S.prove('the response to a constant load increases', sand(
            [a <= b + 1e-6 for a, b in zip(pk, pk[1:])]))
        return
    if k == 'dur':
        pk = [0.]
        for i in range(1, 49):
            if i in (1, 6, 12, 24, 36, 47, 48):
                v = S.real('pk%d' % i, 0, 100)
                S.assume(v >= pk[-1] + 1e-3)
            else:
                v = pk[-1] + 0.05
            pk.append(v)
        nm = [0.] + [-1.] * 48
        for h in case['hours']:
            nm[h] = S.real('nm%d' % h, -50, 100)
            S.assume(nm[h] <= pk[h])
        peak = S.real('peak', 1, 500)
        avg = S.real('avg', 0, 500)
        S.assume(avg <= peak)
        w = [0.] + [S.real('w%d' % i, 0, 500) if i in (3, 40) else 0.5
                    for i in range(1, 49)]
        S.assume(sand(w[3] <= peak, w[40] <= peak))
        seen = []

        def sim(hour_time, q, g_sts, Rb, two_pi_k, ts):
            q = [scalar(v) for v in q]
            S.prove('the two days are simulated hour by hour',
                    [int(v) for v in hour_time] == list(range(49)) and
                    len(q) == 49)
            flat = sand([abs(v - (peak - avg)) <= 1e-9 for v in q[1:]])
            if bool(flat) and not any(s == 'pk' for s, _ in seen):
                seen.append(('pk', q))
                return list(pk)
            seen.append(('nm', q))
            return list(nm)
        S.patch(gl.Loads, 'simulate_hourly', staticmethod(sim))
        L = make(plat)
        a, b = [], []
        d, qp, qn = L.perform_current_month_simulation(w, peak, avg, a, b)
        d = scalar(d)
        S.prove('the peak and the nominal load are simulated',
                sorted(s for s, _ in seen) == ['nm', 'pk'])
        qn = dict(seen)['nm']
        S.prove('the nominal load is scaled by the average and the peak', sand(
            [qn[0] == 0] + [abs(qn[i] * peak - (w[i] - avg) * w[i]) <= 1e-6
                            for i in range(1, 49)]))
        top = smax(nm)
        S.prove('the duration is between 0 and 48 hours',
                sand(d > 0, d <= 48 + 1e-9), d)
        if top > 0:
            i = int(math.floor(d)) if not is_sym(d) else None
            # the response to the peak reaches the nominal maximum then
            lo = sand([simplies(d >= j, pk[j] <= top + 1e-6)
                       for j in range(49)])
            hi = sand([simplies(d <= j, pk[j] >= top - 1e-6)
                       for j in range(49)])
            S.prove('the peak response reaches the nominal maximum after the '
                    'duration', sand(lo, hi), (d, top))
            # (between two hours, the response is taken as a line)
            mid = sand([simplies(
                sand(d >= j, d <= j + 1),
                sabs(pk[j] + (d - j) * (pk[j + 1] - pk[j]) - top) <= 1e-5)
                for j in range(48)])
            S.prove('the peak response reaches the nominal maximum within '
                    'the hour', mid, (d, top))
        else:
            S.prove('no response means no duration', d <= 1e-6)
        return
    if k == 'find':
        m = case['m']
        peak = S.real('peak', 0, 500)
        avg = S.real('avg', 0, 500)
        w = [0.25] * 48
        for i in (0, 20, 47):
            w[i] = S.real('w%d' % i, 0, 500)
        # the window holds the peak hour; other hours may be in another month
        w[30] = peak
        L = make(plat)
        S.assume(avg <= peak)
        L.monthly_two_day_hourly_peak = [[0]] + [[0.] * 48] * 12
        L.monthly_two_day_hourly_peak[m] = list(w)
        L.monthly_peak[m] = peak
        L.monthly_average[m] = avg
        calls = []
        real = gl.Loads.perform_current_month_simulation
        out = S.real('out', 0, 48)

        def perform(self, *a, **kw):
            p = bind(real, (self,) + a, kw)
            calls.append(p)
            return out, None, None
        S.patch(gl.Loads, 'perform_current_month_simulation', perform)
        L.find_peak_durations()
        if len(calls) == 0:
            S.prove('only a month without a load is skipped', peak == 0)
            S.prove('a month without a load has no peak duration', sand(
                L.monthly_peak_duration[m] >= 0,
                L.monthly_peak_duration[m] <= 1e-6))
        else:
            p = calls[0]
            S.prove('one simulation for the month', len(calls) == 1)
            S.prove('a month without a load is skipped', peak > 0)
            pl = p['peak_load']
            S.prove('no hour of the window exceeds the peak handed over',
                    sand([pl >= v for v in w]), pl)
            S.prove('the peak handed over is an hour of the window',
                    sor([pl == v for v in w]))
            S.prove('the average of the month is handed over',
                    p['avg_load'] == avg)
            tw = list(p['two_day_hourly_peak_load'])
            S.prove('the window is preceded by an hour without a load',
                    len(tw) == 49 and tw[0] == 0 and
                    all(a is b or (not is_sym(a) and not is_sym(b) and a == b)
                        for a, b in zip(tw[1:], w)))
            S.prove('the duration is stored for its month',
                    L.monthly_peak_duration[m] == out)
        S.prove('months without loads have no duration', sand(
            [L.monthly_peak_duration[o] <= 1e-6 for o in range(1, 13)
             if o != m]))
        return
