"""C17 / monthly energy of the hybrid load."""
from checks import hyb
from checks.env import *

BOUNDS = ('one or two calendar months with arbitrary totals, peaks up to '
          '1000 kW, any peak days and durations up to 48 h; horizons of up to '
          '30 (40 thorough) months, and of 62 and 135 (up to 372), with fixed quantities in the other months')
ASSUMPTIONS = ['a month without a peak has no load; totals do not exceed the '
               'peak in every hour']


def cases(tier):
    return [c for c in hyb.cases(tier) if tier != 'quick' or
            len(c['free']) == 1]


def harness(S, case):
    dt, plat, gt = mods(S)
    kinds = {int(k): v for k, v in case['kinds'].items()}
    rej, ext, hour, load, sf = hyb.build(
        S, plat, case['start'], case['end'], case['free'], kinds)
    i = 2
    T0 = hyb.month_end(case['start'] - 1) if case['start'] > 1 else 0
    for mo in range(case['start'], case['end'] + 1):
        m = (mo - 1) % 12 + 1
        T = hyb.month_end(mo)
        e, last = 0., T0
        at_end = False
        while i < len(hour):
            e = e + (hour[i] - last) * load[i]
            last = hour[i]
            i += 1
            if last >= T - 1e-8:
                at_end = True
                break
        if not at_end:
            S.fail('every month has an end on the time axis', mo)
            return
        T0 = T
        want = rej.monthly_total[m] - ext.monthly_total[m]
        lim = 1e-6 * (rej.monthly_total[m] + ext.monthly_total[m] +
                      rej.monthly_peak[m] + ext.monthly_peak[m] + 1.)
        S.prove('the load of the month integrates to its total',
                abs(e - want) <= lim, (mo, e, want))
    S.prove('no load follows the last month', sand(
        [h <= T0 + 1e-6 for h in hour[i:]]))
