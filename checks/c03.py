"""C03 / the nested (2D) search returns a feasible field."""
from checks.env import *

BOUNDS = ('nested domains of 1..3 lists of 2..4 fields (quick), 1..5 lists of '
          '2..5 (thorough), lists starting with the same single borehole or with fields of their own; '
          'excess temperature of every field at both height limits '
          'arbitrary; with temperatures that fall from field to field, up to '
          '12 lists of up to 70 fields')
ASSUMPTIONS = [
    'the thermal model is an arbitrary function of field and height, not '
    'exceeding at max height its value at min height',
    'the single-borehole field is the worst of the domain']


def cases(tier):
    K, L = (3, 4) if tier == 'quick' else (5, 5)
    return [{'id': 'k%d-l%d' % (k, l), 'k': k, 'l': l, 'cls': 'Bisection2D',
             'flow': 'borehole' if (k + l) % 2 else 'system'}
            for k in range(1, K + 1) for l in range(2, L + 1)] + [
        {'id': 'starts-k%d-l%d' % (k, l), 'k': k, 'l': l, 'starts': True,
         'cls': 'Bisection2D', 'flow': 'borehole'}
        for k in range(2, K + 1) for l in ((3,) if tier == 'quick'
                                           else (2, 3, 4))] + [
        {'id': 'falling-k%d-l%d' % (k, l), 'k': k, 'l': l, 'mono': True,
         'cls': 'Bisection2D', 'flow': 'borehole'}
        for k, l in [(2, 3), (3, 5), (5, 2), (9, 4), (2, 70)] +
        ([] if tier == 'quick' else [(12, 6), (4, 150), (40, 3)])]


def fkey(f):
    return tuple(tuple(float(v) for v in p) for p in f)


def nested_fields(k, l, starts=False, scale=1):
    out = []
    for i in range(k):
        # the lists may start with fields of their own
        d = [[(0., float(q) * 7.) for q in range(1 + i * bool(starts))]]
        for j in range(1, l):
            n = (2 * j + i) * scale
            d.append([(float(q) * (5. + i + 0.25 * j), float(i)) for q in
                      range(n)])
        out.append(d)
    return out


def run_nested(S, case, size=None):
    dt, plat, gt = mods(S)
    m = media(S, dt, plat, gt)
    nested = nested_fields(case['k'], case['l'], case.get('starts'),
                           case.get('scale', 1))
    minH, maxH = 60., 135.
    vals = {}
    env = None
    places, at_max = {}, []
    for i, d in enumerate(nested):
        for j, f in enumerate(d):
            places.setdefault(fkey(f), []).append((i, j))

    def larger(f, g):
        # further along in the same list, or among the largest of the lists
        for i, j in places[f]:
            for i2, j2 in places[g]:
                if i == i2 and j > j2 or i > i2 and \
                        j == len(nested[i]) - 1 and j2 == len(nested[i2]) - 1:
                    return True
        return False

    def excess(coords, H):
        i = env.key(coords)
        e = S.fn('excess', (i, float(H)), -50, 50)
        if (i, float(H)) not in vals:
            vals[(i, float(H))] = e
            if (i, minH) in vals and (i, maxH) in vals:
                S.assume(vals[(i, minH)] >= vals[(i, maxH)])
            if float(H) == maxH and len(coords) > 1:
                S.assume(excess([(0., 0.)], maxH) >= e)
            if case.get('mono') and float(H) == maxH:
                f = fkey(coords)
                for g, v in at_max:
                    if larger(f, g):
                        S.assume(e < v)
                    elif larger(g, f):
                        S.assume(v < e)
                at_max.append((f, e))
        return e
    env = Fields(S, dt, plat, gt, excess, size=size)
    sp = plat.media.SimulationParameters(1, 240, 35., 5., maxH, minH)
    err = s = None
    try:
        s = getattr(dt.search_routines, case['cls'])(
            nested, 0.2, m.borehole,
            plat.borehole_heat_exchangers.SingleUTube, m.fluid, m.pipe,
            m.grout, m.soil, sp, m.loads, method='hybrid', flow=case['flow'])
    except ValueError as e:
        err = e
    return nested, excess, minH, maxH, env, s, err


def bracket(e_min, e_first, e_last):
    return sor(sand(e_min > 0, e_first <= 0), sand(e_first > 0, e_last <= 0))


def harness(S, case):
    nested, excess, minH, maxH, env, s, err = run_nested(S, case)
    e0min = excess(nested[0][0], minH)
    e0 = excess(nested[0][0], maxH)
    eN = excess(nested[-1][-1], maxH)
    if err is not None:
        S.observe('outcome', 'ValueError')
        S.prove('refuses only when the domain does not bracket a solution',
                sor([snot(bracket(e0min, e0, eN))] + [
                    snot(bracket(*[excess(d[i], h) for i, h in (
                        (0, minH), (0, maxH), (-1, maxH))]))
                    for d in nested if case.get('starts')]),
                (e0min, e0, eN))
        return
    sel = [tuple(p) for p in s.selected_coordinates]
    S.observe('outcome', str(len(sel)))
    flat = [[tuple(p) for p in f] for d in nested for f in d]
    S.prove('the selected field belongs to the domain', sel in flat)
    S.prove('the selected field meets the temperature limits',
            excess(s.selected_coordinates, maxH) <= 0)
    S.prove('the returned exchanger is built on the selected field',
            [tuple(p) for p in s.ghe.GFunction.bore_locations] == sel)
    S.prove('the returned exchanger is at the maximum height',
            s.ghe.bhe.b.H == maxH)
    S.prove('a first field that only the greater height makes feasible is '
            'selected', simplies(sand(e0min > 0, e0 <= 0),
                                 sel == [tuple(p) for p in nested[0][0]]))
    if case.get('mono'):
        if len(sel) > 1:
            own = [q for q, d in enumerate(nested)
                   if sel in [[tuple(p) for p in f] for f in d]][0]
            S.prove('the list searched is the first whose largest field is '
                    'feasible', own == 0 or
                    excess(nested[own - 1][-1], maxH) > 0)
            j = [[tuple(p) for p in f] for f in nested[own]].index(sel)
            S.prove('the next smaller field of the list is not feasible',
                    excess(nested[own][j - 1], maxH) > 0)
    # the inner search works in a nested list whose largest field is feasible
    S.prove('the single borehole is selected only if it is feasible',
            simplies(len(sel) == 1, e0 <= 0))
