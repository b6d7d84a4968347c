"""C39 / hourly loads rebuilt from monthly quantities."""
from checks.env import *

BOUNDS = ('a common year; average and peak load of every month free, peak '
          'days at the ends and in the middle of the month, peak durations '
          'of 0 to 48 hours')
ASSUMPTIONS = ['a peak of half hours may be rounded either way']
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
PATTERNS = ('first', 'second', 'middle', 'last', 'none', 'mixed')


def cases(tier):
    cs = []
    rng = [(0, 5), (5, 13), (13, 27), (27, 40), (40, 48)]
    for p in PATTERNS:
        for lo, hi in rng:
            cs.append({'id': 'year-%s-%d' % (p, lo), 'k': 'year', 'p': p,
                       'lo': lo, 'hi': hi})
    for u in ('W', 'kW'):
        cs.append({'id': 'doubling-' + u, 'k': 'doubling', 'u': u})
    cs.append({'id': 'units', 'k': 'units'})
    if tier != 'quick':
        for m in range(12):
            for lo, hi in rng:
                cs.append({'id': 'month-%d-%d' % (m + 1, lo), 'k': 'month',
                           'm': m, 'lo': lo, 'hi': hi})
    return cs


def day(p, m):
    if p == 'mixed':
        p = PATTERNS[m % 4]
    return {'first': 1, 'second': 2, 'middle': 15, 'none': 0,
            'last': DAYS[m]}[p]


_same = {}


def same(v, a):
    """Is v the value a?  (asked once for every pair of values)"""
    if v is a:
        return True
    k = (id(v), id(a))
    if k not in _same:
        # both are kept alive, so that their identities stay theirs
        _same[k] = (bool(v == a), v, a)
    return _same[k][0]


def month_ok(S, part, avg, peak, d, n, m):
    """part, the hours of a month, is avg but for n hours of peak about noon
    of day d."""
    other = [i for i, v in enumerate(part) if not same(v, avg)]
    S.prove('every other hour has the average load',
            all(same(part[i], peak) for i in other), (m,))
    S.prove('the peak lasts its duration', len(other) == n,
            (m, d, len(other), n))
    if not other:
        return
    S.prove('the peak is not interrupted',
            other[-1] - other[0] + 1 == len(other), (m,))
    first, last = (d - 1) * 24, d * 24 - 1
    if n <= 24:
        S.prove('the peak is on its day',
                first <= other[0] and other[-1] <= last,
                (m, d, other[0], other[-1]))
        mid = (other[0] + other[-1] + 1) / 2.
        S.prove('the peak is about noon', abs(mid - first - 12) <= 1,
                (m, d, mid))
    else:
        S.prove('a long peak covers its day',
                other[0] <= first and other[-1] >= last,
                (m, d, other[0], other[-1]))


def year(S, case, dt, plat):
    h = built_hybrid(S, plat)
    D = {l: S.real('duration_' + l, case['lo'], case['hi'])
         for l in ('rejection', 'extraction')}
    n = {}
    for l, v in D.items():
        # whole hours nearest to the duration
        n[l] = 0
        while n[l] < 48 and v >= n[l] + 0.5:
            n[l] += 1
        S.assume(sor(v <= n[l] + 0.5 - 1e-6, n[l] == 48))
        S.assume(sor(v >= n[l] - 0.5 + 1e-6, n[l] == 0))
    days = {}
    for s, l in enumerate(('rejection', 'extraction')):
        p = case['p']
        if s and p != 'none':
            # the other load peaks on another day
            p = PATTERNS[(PATTERNS.index(p) + 2) % 4]
        days[l] = [day(p, m) for m in range(12)]
        a = [S.real('a%d_%d' % (s, m), 1, 100) for m in range(12)]
        pk = [S.real('p%d_%d' % (s, m), 101, 900) if days[l][m] else 0.
              for m in range(12)]
        d = [D[l] if days[l][m] else 1e-6 for m in range(12)]
        setattr(h, l, types.SimpleNamespace(
            monthly_average=[0.] + a, monthly_peak=[0.] + pk,
            monthly_peak_duration=[0.] + d, monthly_peak_day=[0] + days[l]))
    rej, ext = h.hourly_load_representation()
    for l, out in (('rejection', rej), ('extraction', ext)):
        S.prove('a value for every hour of the year', len(out) == 8760,
                (l, len(out)))
        i, o = 0, getattr(h, l)
        for m in range(12):
            k = 24 * DAYS[m]
            month_ok(S, out[i:i + k], o.monthly_average[m + 1],
                     o.monthly_peak[m + 1], days[l][m],
                     n[l] if days[l][m] else 0, m + 1)
            i += k


def one_month(S, case, dt, plat):
    """Every day of a month through the function that places the peak."""
    m = case['m']
    prev, hours = 24 * sum(DAYS[:m]), 24 * DAYS[m]
    n = S.int('hours', case['lo'], case['hi'])
    d = S.int('day', 1, DAYS[m])
    avg, peak = S.real('avg', 1, 100), S.real('peak', 101, 900)
    old = 0.5
    out = [old] * 8760
    plat.ground_loads.synthetic_load_function(out, avg, peak, n, d - 1, prev,
                                              hours)
    S.prove('a value for every hour of the year', len(out) == 8760)
    S.prove('other months are left alone', all(
        same(v, old) for v in out[:prev] + out[prev + hours:]))
    month_ok(S, out[prev:prev + hours], avg, peak, d, n, m + 1)


def harness(S, case):
    _same.clear()
    dt, plat, gt = mods(S)
    if case['k'] == 'year':
        return year(S, case, dt, plat)
    if case['k'] == 'month':
        return one_month(S, case, dt, plat)
    f = plat.ground_loads.create_synthetic_doubling_load_profile
    if case['k'] == 'units':
        for u in ('MW', '', 'w'):
            try:
                f(units=u)
            except ValueError:
                continue
            S.fail('unknown units are refused', u)
        S.prove('unknown units are refused', True)
        return
    rej, ext = f(units=case['u'])
    c = 1000. if case['u'] == 'W' else 1.
    # the month asked about, of twelve
    m = S.int('month', 0, 11)
    lo, k = 24 * sum(DAYS[:m]), 24 * DAYS[m]
    for out, w in ((ext, m + 1), (rej, 12 - m)):
        S.prove('a value for every hour of the year', len(out) == 8760)
        part = [scalar(v) for v in out[lo:lo + k]]
        S.prove('the peak is twice the average, for as many hours as units',
                sum(1 for v in part if v == 2. * w * c) == w, (m + 1, w))
        S.prove('all other hours have the average',
                sum(1 for v in part if v == w * c) == k - w, (m + 1, w))
