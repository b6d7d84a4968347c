"""Hybrid load built on symbolic monthly quantities (C17, C18)."""
from checks.env import *

DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def month_end(i):
    return 24 * (sum(DAYS) * ((i - 1) // 12) + sum(DAYS[:(i - 1) % 12 + 1]))


def build(S, plat, start, end, free, kinds, fixed=False):
    """free: calendar months with symbolic quantities; kinds: which of them
    have a rejection ('r') or an extraction ('e') peak; fixed: only days and
    durations are symbolic."""
    gl = plat.ground_loads
    made = []
    for tag in ('r', 'e'):
        L = built_loads(plat, types.SimpleNamespace())
        L.days_in_month = [0] + DAYS
        n = 13
        L.monthly_total = [0.] * n
        L.monthly_peak = [0.] * n
        L.monthly_average = [0.] * n
        L.monthly_peak_day = [0] * n
        L.monthly_peak_duration = [1e-6] * n
        for m in range(1, 13):
            hrs = 24 * DAYS[m - 1]
            if m in free:
                if tag in kinds[m]:
                    p = (5. if tag == 'r' else 7.) if fixed else \
                        S.real('peak_%s%d' % (tag, m), 0.001, 1000)
                    L.monthly_peak[m] = p
                    L.monthly_peak_day[m] = S.sint(
                        'day_%s%d' % (tag, m), 1, DAYS[m - 1])
                    L.monthly_peak_duration[m] = S.real(
                        'dur_%s%d' % (tag, m), 1e-6, 48)
                    t = 400. if fixed else \
                        S.real('total_%s%d' % (tag, m), 0, 1e6)
                    S.assume(t <= p * hrs)
                    L.monthly_total[m] = t
                    L.monthly_average[m] = t / hrs
            else:
                L.monthly_total[m] = 100. * m + (30. if tag == 'e' else 0.)
                L.monthly_peak[m] = 2. + m / 4.
                L.monthly_average[m] = L.monthly_total[m] / hrs
                L.monthly_peak_day[m] = 7 if tag == 'e' else 12
                L.monthly_peak_duration[m] = 3.5
        made.append(L)
    rej, ext = made
    it = iter(made)
    S.patch(gl, 'Loads', lambda *a, **k: next(it))
    bhe = types.SimpleNamespace(
        soil=types.SimpleNamespace(k=2.),
        compute_effective_borehole_resistance=lambda *a, **k: 0.1)
    rn = types.SimpleNamespace(g_sts=None, t_s=1e9)
    sp = types.SimpleNamespace(start_month=start, end_month=end)
    h = gl.HybridLoad([0.], [0.], bhe, rn, sp)
    hour = [scalar(v) for v in h.hour]
    load = [scalar(v) for v in h.load]
    sf = [scalar(v) for v in h.sfload]
    return rej, ext, hour, load, sf


def cases(tier):
    cs = []
    months = range(1, 13)
    for m in months:
        for k in ('re', 'r', 'e', ''):
            if tier == 'quick' and m not in (1, 2, 6, 12) and k != 're':
                continue
            cs.append({'id': 'month%d-%s' % (m, k or 'none'), 'start': m,
                       'end': m, 'free': [m], 'kinds': {m: k}})
    pairs = [(1, 2), (2, 3), (11, 12)] if tier == 'quick' else \
        [(i, i + 1) for i in range(1, 12)]
    for a, b in pairs:
        cs.append({'id': 'months%d-%d' % (a, b), 'start': a, 'end': b,
                   'free': [a, b], 'kinds': {a: 're', b: 're'}})
    for end in (12, 24, 30) if tier == 'quick' else (12, 13, 24, 30, 36, 40):
        for m in (1, 6) if tier == 'quick' else (1, 6, 12):
            cs.append({'id': 'horizon%d-%d' % (end, m), 'start': 1,
                       'end': end, 'free': [m], 'kinds': {m: 're'}})
    # decades, with one free month
    for end, m, k in ((135, 2, 'r'), (62, 12, 'e'), (480, 2, 'e')) if tier == 'quick' else \
            ((135, 2, 're'), (372, 2, 'e'), (240, 11, 'r'), (130, 12, 're')):
        cs.append({'id': 'long%d-%d-%s' % (end, m, k), 'start': 1,
                   'end': end, 'free': [m], 'kinds': {m: k}})
    cs.append({'id': 'mid-year', 'start': 4, 'end': 30, 'free': [5],
               'kinds': {5: 're'}})
    return cs
