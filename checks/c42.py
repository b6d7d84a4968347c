"""C42 / monthly peaks in the hybrid load."""
from checks import hyb
from checks.env import *

BOUNDS = ('one or two calendar months with any peak days and durations up '
          'to 48 h (totals and peaks fixed in the long horizons); horizons of '
          'up to 30 (40 thorough) months, starts in January and later')
ASSUMPTIONS = ['a month without a peak has no load']


def cases(tier):
    cs = []
    months = range(1, 13)
    for m in months:
        for k in ('re', 'r', 'e'):
            if tier == 'quick' and m not in (1, 2, 6, 12) and k != 're':
                continue
            cs.append({'id': 'month%d-%s' % (m, k), 'start': m, 'end': m,
                       'free': [m], 'kinds': {m: k}})
    spans = [(1, 12, 6), (1, 24, 12), (1, 30, 1), (4, 30, 5), (4, 30, 2),
             (7, 36, 6), (2, 40, 4)]
    if tier != 'quick':
        spans += [(s, e, m) for s in (1, 3, 8, 12) for e in (26, 31, 48)
                  for m in (1, 7, 12)]
    for s, e, m in spans:
        for k in ('re', 'e') if tier != 'quick' or (s, m) == (7, 6) else \
                ('re',):
            cs.append({'id': 'span%d-%d-%d-%s' % (s, e, m, k), 'start': s,
                       'end': e, 'free': [m], 'kinds': {m: k}})
    return cs


def harness(S, case):
    dt, plat, gt = mods(S)
    kinds = {int(k): v for k, v in case['kinds'].items()}
    start, end = case['start'], case['end']
    rej, ext, hour, load, sf = hyb.build(
        S, plat, start, end, case['free'], kinds, fixed=True)
    for mo in range(start, end + 1):
        m = (mo - 1) % 12 + 1
        inside = mo < start + 12 or mo > end - 12
        if m not in case['free']:
            continue
        k = kinds[m]
        same = len(k) == 2 and bool(rej.monthly_peak_day[m] ==
                                    ext.monthly_peak_day[m])
        a = hyb.month_end(mo - 1) if mo > 1 else 0
        b = hyb.month_end(mo)
        net = rej.monthly_average[m] - ext.monthly_average[m]
        if inside and same:
            continue        # the peaks of one day cancel by design
        if not inside:
            S.prove('a month without placed peaks has its average load', sand(
                [sor(hour[i] <= a + 1e-6, hour[i - 1] >= b - 1e-6,
                     abs(load[i] - net) <= 1e-6)
                 for i in range(2, len(hour))]), mo)
            continue
        for tag, L, sg in (('r', rej, 1.), ('e', ext, -1.)):
            if tag not in k:
                continue
            p, d = L.monthly_peak[m], L.monthly_peak_duration[m]
            day = L.monthly_peak_day[m]
            alt, mid = [], []
            for i in range(2, len(hour)):
                here = sand(abs(load[i] - sg * p) <= 1e-9,
                            abs(hour[i] - hour[i - 1] - d) <= 1e-6,
                            hour[i - 1] >= a - 1e-6, hour[i] <= b + 1e-6)
                alt.append(here)
                c = (hour[i] + hour[i - 1]) / 2
                mid.append(sand(here, c >= a + 24 * (day - 1),
                                c <= a + 24 * day))
            S.prove('a peak lasts its duration within its month', sor(alt)
                    if alt else False, (mo, tag))
            if len(k) == 1:
                half = d / 2
                S.prove('a lone peak that fits is on its day', simplies(
                    sand(24 * (day - 1) + 12 - half >= 0,
                         24 * (day - 1) + 13 + half <= b - a), sor(mid)
                    if mid else False), (mo, tag))
