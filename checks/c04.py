"""C04 / the zoned search keeps the cheapest sized candidate."""
from checks.env import *
from checks import c03

BOUNDS = ('nested domains of 1..3 lists of 2..3 fields (quick), 1..4 lists of '
          '2..4 (thorough) and 9 lists of 2; fields of up to 15, and 3 lists '
          'with fields of up to 360 and 1600 boreholes; excess and sized height of every '
          'field arbitrary (heights within the height limits)')
ASSUMPTIONS = c03.ASSUMPTIONS + [
    'sizing one field returns a height between the limits']


def cases(tier):
    K, L = (3, 3) if tier == 'quick' else (4, 4)
    cs = [{'id': 'k%d-l%d' % (k, l), 'k': k, 'l': l, 'cls': 'BisectionZD',
           'flow': 'borehole'}
          for k in range(1, K + 1) for l in range(2, L + 1)]
    cs.append({'id': 'k9-l2', 'k': 9, 'l': 2, 'cls': 'BisectionZD',
               'flow': 'borehole', 'first': 0})
    for n in (90, 400):
        cs.append({'id': 'k3-l2-x%d' % n, 'k': 3, 'l': 2, 'scale': n,
                   'cls': 'BisectionZD', 'flow': 'borehole'})
    return cs


def harness(S, case):
    log = []
    hs = {}

    def size(coords):
        k = str([tuple(p) for p in coords])
        if k not in hs:
            hs[k] = S.fn('height', (float(len(hs)),), 60, 135)
        log.append((coords, hs[k]))
        return hs[k]
    nested, excess, minH, maxH, env, s, err = c03.run_nested(S, case, size)
    e0min = excess(nested[0][0], minH)
    e0 = excess(nested[0][0], maxH)
    eN = excess(nested[-1][-1], maxH)
    if err is not None:
        S.observe('outcome', 'ValueError')
        S.prove('refuses only when the domain does not bracket a solution',
                snot(sor(sand(e0min > 0, e0 <= 0), sand(e0 > 0, eN <= 0))),
                (e0min, e0, eN))
        return
    sel = [tuple(p) for p in s.selected_coordinates]
    S.observe('outcome', str(len(sel)))
    flat = [[tuple(p) for p in f] for d in nested for f in d]
    S.prove('the selected field belongs to the domain', sel in flat)
    S.prove('the selected field meets the temperature limits at max height',
            excess(s.selected_coordinates, maxH) <= 0)
    S.prove('the returned exchanger is built on the selected field',
            [tuple(p) for p in s.ghe.GFunction.bore_locations] == sel)
    S.prove('the returned exchanger was sized', s.ghe.sized and
            s.ghe.GFunction.H_values[0] == minH)
    S.eq('the returned height is the sized height', s.ghe.bhe.b.H,
         hs[str(sel)])
    total = s.ghe.bhe.b.H * float(len(sel))
    cands = log[:-1] if len(log) > 1 else log
    for c, h in cands:
        S.prove('no sized candidate needs less drilling',
                total <= h * float(len(c)) + 1e-9,
                (total, h * float(len(c))))
    # the walk does not stop while drilling still decreases
    dom = [[tuple(p) for p in c] for c, h in cands]
    last = cands[-1]
    if sel == dom[-1]:
        owner = [i for i, d in enumerate(nested)
                 if sel in [[tuple(p) for p in f] for f in d]]
        first = [i for i, d in enumerate(nested)
                 if dom[0] in [[tuple(p) for p in f] for f in d]]
        nxt = max(owner) + 1
        if nxt < len(nested) and len(cands) < 7 and len(sel) > 1 and \
                nxt - min(first) < 7:
            eL = excess(nested[nxt][-1], maxH)
            S.prove('the walk over the nested lists stops early only if the '
                    'next list cannot be solved',
                    snot(sand(e0 > 0, eL <= 0)), (e0, eL))
