"""C16 / monthly statistics of an hourly load."""
from checks.env import *

BOUNDS = ('per month: first and last hour, the hours around a day change and '
          'one or two hours of other days symbolic (any non-negative load); '
          'all other hours of the year fixed at a background of zero or one '
          'with one fixed peak')
ASSUMPTIONS = ['years of 365 days']
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def cases(tier):
    cs = []
    for m in range(1, 13):
        for b in ('zero', 'one') if tier != 'quick' or m in (1, 2, 12) \
                else ('one',):
            for h in range(3 if tier == 'quick' else 6):
                cs.append({'id': 'month%d-%s-%d' % (m, b, h), 'm': m, 'b': b,
                           'h': h})
    return cs


def harness(S, case):
    dt, plat, gt = mods(S)
    m = case['m']
    base = 24 * sum(DAYS[:m - 1])
    nh = 24 * DAYS[m - 1]
    bg = 0. if case['b'] == 'zero' else 1.
    hours = [bg] * 8760
    if case['b'] == 'one':
        hours[base + 24 * 9 + 5] = 40.
    rel = {0: [0, 23, 24, nh - 1], 1: [24 * 9 + 4, 24 * 9 + 6, nh - 24],
           2: [47, 48, nh - 25], 3: [24 * 14, 24 * 15, 24 * 16],
           4: [1, 100, 24 * 27 + 23, nh - 2], 5: [24 * 20 + 12, 24 * 21 - 1,
                                                  nh - 23]}[case['h']]
    sym = {}
    for r in rel:
        sym[base + r] = S.real('h%d' % r, 0, 1000)
    # hours of the neighbouring months
    for name, i in (('prev', (base - 1) % 8760), ('next', (base + nh) % 8760)):
        if case['h'] == 0:
            sym[i] = S.real(name, 0, 1000)
    for i, v in sym.items():
        hours[i] = v
    L = built_loads(plat, types.SimpleNamespace())
    L.hourly = list(hours)
    L.days_in_month = [0] + DAYS
    L.monthly_total = [0.] * 13
    L.monthly_peak = [0.] * 13
    L.monthly_average = [0.] * 13
    L.monthly_peak_day = [0.] * 13
    L.monthly_two_day_hourly_peak = [[0]]
    L.split_load_by_month()
    mine = hours[base:base + nh]
    fixed = [v for i, v in enumerate(mine) if base + i not in sym]
    symv = [v for i, v in sym.items() if base <= i < base + nh]
    total = sum(fixed)
    for v in symv:
        total = total + v
    S.prove('the monthly total is that of its hours',
            abs(L.monthly_total[m] - total) <= 1e-6, (L.monthly_total[m],
                                                     total))
    S.prove('the monthly average is the total over the hours',
            abs(L.monthly_average[m] * nh - total) <= 1e-6)
    peak = L.monthly_peak[m]
    allv = [max(fixed)] + symv
    S.prove('no hour of the month exceeds the peak',
            sand([peak >= v for v in allv]))
    S.prove('the peak occurs in the month', sor([peak == v for v in allv]))
    day = L.monthly_peak_day[m]
    S.prove('the peak day is a day of the month', sand(
        day >= 0, day <= DAYS[m - 1]), day)
    S.prove('only a month without a load has no peak day',
            simplies(peak > 0, day >= 1))
    d = int(day)
    S.observe('day', d)
    if d >= 1:
        S.prove('the peak day contains the peak hour',
                has(hours[base + 24 * (d - 1):base + 24 * d], peak),
                (d, peak))
    L.process_two_day_loads()
    S.prove('one window per month', len(L.monthly_two_day_hourly_peak) == 13)
    w = L.monthly_two_day_hourly_peak[m]
    S.prove('the window is two days long', len(w) == 48)
    if d >= 1:
        S.prove('the window contains the peak hour', has(w, peak))
        opts = []
        for s in (base + 24 * (d - 2), base + 24 * (d - 1)):
            exp = [hours[(s + i) % 8760] for i in range(48)]
            opts.append(sand([a == b for a, b in zip(w, exp)
                              if is_sym(a) or is_sym(b) or a != b]))
        S.prove('the window is the peak day and a neighbouring day',
                sor(opts))
    for o in {(m - 2) % 12 + 1, m % 12 + 1, 13 - m}:
        if o != m:
            k = 24 * sum(DAYS[:o - 1])
            seg = hours[k:k + 24 * DAYS[o - 1]]
            f = sum([v for v in seg if not is_sym(v)])
            for v in seg:
                if is_sym(v):
                    f = f + v
            S.prove('other months keep their own hours',
                    abs(L.monthly_total[o] - f) <= 1e-6, o)


def has(vals, peak):
    syms = [v for v in vals if is_sym(v)]
    nums = [v for v in vals if not is_sym(v)]
    alts = [v == peak for v in syms]
    alts += [v == peak for v in sorted(set(nums))]
    return sor(alts)
