"""C20 / calendar helpers."""
from checks.env import *

DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
NAMES = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
         'August', 'September', 'October', 'November', 'December']
BOUNDS = ('every hour of up to 4 (40 thorough) years of 365 days; peaks of '
          'any day and any duration up to two days in any of those months')
ASSUMPTIONS = ['years have 365 days']


def cases(tier):
    y = 4 if tier == 'quick' else 40
    cs = [{'id': 'tiling-%d' % i, 'k': 'tile', 'y': i}
          for i in sorted({1, 2, y})]
    step = 1 if tier != 'quick' else 5
    cs += [{'id': 'peak-%d' % m, 'k': 'peak', 'm': m}
           for m in range(1, 12 * min(y, 4) + 1, step)]
    cs.append({'id': 'names', 'k': 'names'})
    return cs


def harness(S, case):
    dt, plat, gt = mods(S)
    gl = plat.ground_loads
    k = case['k']
    if k == 'tile':
        n = 12 * case['y']
        t = S.sint('hour', 1, 8760 * case['y'])
        F = [scalar(gl.firstmonthhour(i)) for i in range(1, n + 1)]
        L = [scalar(gl.lastmonthhour(i)) for i in range(1, n + 1)]
        M = [scalar(gl.monthdays(i)) for i in range(1, n + 1)]
        S.prove('every hour lies in exactly one month',
                sor([sand([sand(F[i] <= t, t <= L[i])] +
                          [sor(t < F[j], t > L[j]) for j in (i - 1, i + 1)
                           if 0 <= j < n]) for i in range(n)]))
        # the month an hour belongs to, from the year and the days before it
        import numpy as np
        starts = [0]
        for d in DAYS:
            starts.append(starts[-1] + 24 * d)
        ok = []
        for i in range(n):
            a = 8760 * (i // 12) + starts[i % 12]
            b = 8760 * (i // 12) + starts[i % 12 + 1]
            ok.append(simplies(sand(F[i] <= t, t <= L[i]),
                               sand(t > a, t <= b)))
        S.prove('hours belong to their month of a 365-day year', sand(ok))
        S.prove('a month has 24 hours a day', all(
            L[i] - F[i] + 1 == 24 * M[i] for i in range(n)))
        return
    if k == 'peak':
        m = case['m']
        mi = (m - 1) % 12 + 1
        day = S.sint('day', 1, DAYS[mi - 1])
        dur = S.real('dur', 1e-6, 48)
        obj = built_loads(plat, types.SimpleNamespace())
        obj.monthly_peak_day = [0] * 13
        obj.monthly_peak_duration = [0.] * 13
        obj.monthly_peak = [0.] * 13
        obj.monthly_peak_day[mi] = day
        obj.monthly_peak_duration[mi] = dur
        p = S.real('peak', 0, 1000)
        obj.monthly_peak[mi] = p
        a, b = obj.peak_hour_range(mi, m)
        F = scalar(gl.firstmonthhour(m))
        mid = F + 24 * (day - 1) + 12
        S.prove('the peak lasts its duration', abs(b - a - dur) <= 1e-6)
        S.prove('the peak does not start before the simulation', a >= 0)
        S.prove('the peak is centred on noon of its day', simplies(
            mid - dur / 2 >= 0, sand(abs((a + b) / 2 - mid) <= 1e-6)))
        S.prove('the energy of the peak is its size times its duration',
                abs(obj.peak_energy(mi) - p * dur) <= 1e-6)
        return
    m = S.int('month', 1, 12)
    name = gl.number_to_month(m)
    S.prove('month names are those of the calendar', name == NAMES[m - 1])
    S.prove('month numbers and names are inverse', gl.monthindex(name) == m)
    y = S.int('years', 0, 3)
    S.prove('days of a month', gl.monthdays(m + 12 * y) == DAYS[m - 1])
    S.prove('an unknown month has no name', gl.number_to_month(0) is None and
            gl.number_to_month(13) is None and gl.monthindex('x') is None)
