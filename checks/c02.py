"""C02 / the 1D search returns the smallest feasible field."""
from checks.env import *
from checks import c01

BOUNDS = ('domains of 1..N fields (N=9 quick, 24 thorough) plus some of 40 to '
          '300 (quick) or 1200 (thorough); '
          'excess temperature at max height an arbitrary strictly decreasing '
          'sequence over the fields')
ASSUMPTIONS = c01.ASSUMPTIONS + [
    'adding boreholes strictly lowers the excess temperature at max height']


def cases(tier):
    ns = list(range(1, 10 if tier == 'quick' else 25))
    ns += [40, 300] if tier == 'quick' else [40, 90, 300, 700, 1200]
    return [{'id': 'n%d' % n, 'n': n, 'flow': 'borehole' if n % 2 else
             'system'} for n in ns]


def harness(S, case):
    dt, domain, excess, minH, maxH, env, s, err = c01.run_search(
        S, case, mono=True)
    e0 = excess(domain[0], maxH)
    eN = excess(domain[-1], maxH)
    if err is not None:
        S.observe('outcome', 'ValueError')
        S.prove('a bracketed domain is never refused',
                snot(sand(e0 > 0, eN <= 0)), (e0, eN))
        return
    k = int(s.selection_key)
    S.observe('outcome', str(k))
    S.prove('selected field feasible', excess(domain[k], maxH) <= 0)
    if k > 0:
        S.prove('the next smaller field is not feasible',
                excess(domain[k - 1], maxH) > 0,
                (k, excess(domain[k - 1], maxH)))
