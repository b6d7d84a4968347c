"""C01 / the 1D search returns a feasible field of its domain."""
from checks.env import *

BOUNDS = ('domains of 1..N fields (N=9 quick, 24 thorough) plus some of 40 to '
          '150 (quick) or 700 (thorough), and domains with several fields of one '
          'size; '
          'excess temperature of every field at the two height limits an '
          'arbitrary real; both flow types')
ASSUMPTIONS = [
    'the thermal model (GHE simulation, g-functions) is an arbitrary function '
    'of field and height, not exceeding at max height its value at min height',
]


def cases(tier):
    ns = list(range(1, 10)) if tier == 'quick' else list(range(1, 25))
    ns += [40, 150] if tier == 'quick' else [40, 90, 300, 700]
    return [{'id': 'n%d' % n, 'n': n, 'flow': 'borehole' if n % 2 else
             'system'} for n in ns] + [
        # several fields of one size, told apart by their spacing
        {'id': 'twins-n%d' % n, 'n': n, 'twins': True, 'flow': 'system'}
        for n in ((4, 7) if tier == 'quick' else (4, 7, 12, 20))]


def fields(case):
    if case.get('twins'):
        return [line_field(i // 3 + 1, 5. + i) if i > 2 else
                [(float(i), 1.)] for i in range(case['n'])]
    return [line_field(i + 1) for i in range(case['n'])]


def run_search(S, case, mono=False):
    dt, plat, gt = mods(S)
    m = media(S, dt, plat, gt)
    n = case['n']
    domain = fields(case)
    index = {tuple(f): i for i, f in enumerate(domain)}
    minH, maxH = 60., 135.
    vals = {}

    def excess(coords, H):
        i = index[tuple((float(x), float(y)) for x, y in coords)]
        e = S.fn('excess', (float(i), float(H)), -50, 50)
        if (i, float(H)) not in vals:
            vals[(i, float(H))] = e
            if (i, minH) in vals and (i, maxH) in vals:
                S.assume(vals[(i, minH)] >= vals[(i, maxH)])
            if mono and float(H) == maxH:
                for (j, h), v in list(vals.items()):
                    if h == maxH and j != i:
                        S.assume(v > e if j < i else v < e)
        return e
    env = Fields(S, dt, plat, gt, excess)
    sp = plat.media.SimulationParameters(1, 240, 35., 5., maxH, minH)
    err = None
    s = None
    try:
        s = dt.search_routines.Bisection1D(
            domain, 0.2, m.borehole,
            plat.borehole_heat_exchangers.SingleUTube, m.fluid, m.pipe,
            m.grout, m.soil, sp, m.loads, method='hybrid', flow=case['flow'])
    except ValueError as e:
        err = e
    return dt, domain, excess, minH, maxH, env, s, err


def harness(S, case):
    dt, domain, excess, minH, maxH, env, s, err = run_search(S, case)
    n = len(domain)
    e0min = excess(domain[0], minH)
    e0 = excess(domain[0], maxH)
    eN = excess(domain[-1], maxH)
    solvable = sor(sand(e0min > 0, e0 <= 0), sand(e0 > 0, eN <= 0))
    if err is not None:
        S.prove('refuses only when the domain does not bracket a solution',
                snot(solvable), (e0min, e0, eN))
        S.observe('outcome', 'ValueError')
        return
    k = s.selection_key
    S.prove('a field is selected', k is not None and
            s.selected_coordinates is not None)
    k = int(k)
    S.observe('outcome', str(k))
    S.prove('the selected key names a field of the domain', 0 <= k < n)
    S.prove('the selected field is the one the key names',
            s.selected_coordinates == domain[k])
    S.prove('the selected field meets the temperature limits',
            excess(domain[k], maxH) <= 0, (k, excess(domain[k], maxH)))
    S.prove('the returned exchanger is built on the selected field',
            list(s.ghe.GFunction.bore_locations) == list(domain[k]))
    S.prove('the returned exchanger is at the maximum height',
            s.ghe.bhe.b.H == maxH, (s.ghe.bhe.b.H,))
