"""C18 / time axis of the hybrid load."""
from checks import hyb
from checks.env import *

BOUNDS = ('one or two calendar months with any peak days and durations up '
          'to 48 h (totals and peaks fixed: the axis does not depend on them); horizons of up to '
          '30 (40 thorough) months, and of 62 and 135 (up to 372), with fixed quantities in the other months')
ASSUMPTIONS = ['a month without a peak has no load']
cases = hyb.cases


def harness(S, case):
    dt, plat, gt = mods(S)
    kinds = {int(k): v for k, v in case['kinds'].items()}
    start, end = case['start'], case['end']
    rej, ext, hour, load, sf = hyb.build(
        S, plat, start, end, case['free'], kinds, fixed=True)
    S.prove('one load per time', len(hour) == len(load))
    t0 = hyb.month_end(start - 1) if start > 1 else 0
    S.prove('the axis starts where the first month does', hour[1] == t0)
    S.prove('no load before the start', sand(load[0] == 0, load[1] == 0))
    S.prove('the time steps increase', sand(
        [b > a for a, b in zip(hour[1:], hour[2:])]), tuple(hour[1:]))
    S.prove('the axis ends with the last month',
            abs(hour[-1] - hyb.month_end(end)) <= 1e-6, hour[-1])
    for mo in range(start, end + 1):
        T = hyb.month_end(mo)
        S.prove('each month end is on the axis', sor(
            [abs(h - T) <= 1e-6 for h in hour]), mo)
    acc = 0.
    S.prove('one step per time', len(sf) == len(hour))
    for i, s in enumerate(sf):
        acc = acc + s
        S.prove('the load steps sum to the load', abs(acc - load[i]) <= 1e-6,
                i)
