"""C09 / bi-rectangle domains."""
from checks.dom import *

BOUNDS = ('land sides and spacing limits arbitrary reals, either orientation, '
          'at most 4 (quick) / 6 (thorough) minimum spacings along the long '
          'side; one case models the rounding of every division')
ASSUMPTIONS = ['each spacing limit pair admits at least one whole number of '
               'spacings per side (otherwise the domain is empty)']


def cases(tier):
    n = 4 if tier == 'quick' else 6
    cs = []
    for o in ('long-x', 'long-y'):
        for k in range(2, n + 1):
            cs.append({'id': 'nested-%s-%d' % (o, k), 'o': o, 'n': k})
            cs.append({'id': 'single-%s-%d' % (o, k), 'o': o, 'n': k,
                       'single': True})
        cs.append({'id': 'rounded-' + o, 'o': o, 'n': 15, 'rounded': True,
                   'opts': {'rounding': True, 'witnesses': 0}})
        cs.append({'id': 'design-' + o, 'o': o, 'n': 3, 'design': True})
        cs.append({'id': 'fixed-' + o, 'o': o, 'n': 9, 'fixed': True})
    cs.append({'id': 'square', 'o': 'square', 'n': 3})
    return cs


def land(S, case):
    n = case['n']
    if case.get('fixed'):
        bmin, bx, by = 3.5, 6., 11.
        l1 = 4.3 * n
        l2 = S.real('short', 7., l1)
    elif case.get('rounded'):
        bmin, bx, by = 4., 4.2, 4.4
        if case['o'] == 'long-y':
            bx, by = by, bx
        l1 = 61.
        l2 = S.real('short', 53.3, 59.)
    else:
        bmin = S.real('B_min', 1, 20)
        bx = S.real('B_max_x', 1, 60)
        by = S.real('B_max_y', 1, 60)
        S.assume(sand(bx >= bmin, by >= bmin))
        l1 = S.real('long', 1, 400)
        l2 = S.real('short', 0.5, 400)
        S.assume(sand(l1 >= bmin * (n - 1), l1 <= bmin * n))
    if case['o'] == 'square':
        l2 = l1
    else:
        S.assume(l2 < l1)
    if case['o'] == 'long-y':
        return l2, l1, bmin, bx, by, l1, l2, by, bx
    return l1, l2, bmin, bx, by, l1, l2, bx, by


def some(L, lo, hi, n):
    """A whole number of spacings is possible (with a little to spare)."""
    return sor([sand(L >= k * lo * (1 + 1e-6), L <= k * hi * (1 - 1e-6))
                for k in range(1, n + 2)])


def check_list(S, dom, o, Lx, Ly, bmin, bx, by, n2=None):
    """One inner domain: a point, a growing line, rows, then finer lines."""
    last = 0
    S.prove('inner domains are not empty', len(dom) > 0)
    S.prove('the first field is a single borehole', len(dom[0]) == 1)
    top = None
    for f in dom:
        lat = Lattice(S, f)
        S.prove('fields are full grids', lat.full())
        prove_inside(S, lat, Lx, Ly)
        prove_gaps(S, 'spacing along x is within its limits', lat.xs, bmin,
                   bx)
        prove_gaps(S, 'spacing along y is within its limits', lat.ys, bmin,
                   by)
        S.prove('the borehole count increases', len(f) > last,
                (last, len(f)))
        last = len(f)
        top = lat
    S.prove('the largest field spans the land', sand(
        abs(top.xs[-1] - Lx) <= 10 * TOL, abs(top.ys[-1] - Ly) <= 10 * TOL,
        abs(top.xs[0]) <= TOL, abs(top.ys[0]) <= TOL),
        (top.xs[-1], top.ys[-1]))
    return top


def harness(S, case):
    dt, plat, gt = mods(S)
    Lx, Ly, bmin, bx, by, L1, L2, b1, b2 = land(S, case)
    n = case['n']
    S.assume(some(L1, bmin, b1, n))
    if case.get('single'):
        # the limit of the short side itself admits a whole spacing
        S.assume(some(L2, bmin, b2, n))
        S.assume(L2 >= bmin)
        k2 = None
        for k in range(1, n + 2):
            if k * b2 >= L2 * (1 + 1e-8):
                k2 = k
                break
            if k * b2 > L2 * (1 - 1e-8):
                raise_skip(S)
        S.assume(L2 >= k2 * bmin)
        dom = dt.domains.bi_rectangular(
            Lx, Ly, bmin, bx, by, transpose=case['o'] == 'long-y')
        doms = [dom]
    else:
        S.assume(some(L2, bmin, b2, n))
        if case.get('design'):
            m = media(S, dt, plat, gt)
            sp = plat.media.SimulationParameters(1, 240, 35., 5., 135., 60.)
            geo = dt.media.GeometricConstraints(
                length=Lx, width=Ly, B_min=bmin, B_max_x=bx, B_max_y=by)
            doms = dt.design.Design(
                0.2, m.borehole, plat.borehole_heat_exchangers.SingleUTube,
                m.fluid, m.pipe, m.grout, m.soil, sp, geo, m.loads,
                flow='borehole',
                routine='bi-rectangle').coordinates_domain_nested
        else:
            doms = dt.domains.bi_rectangle_nested(Lx, Ly, bmin, bx, by)
    S.observe('domains', len(doms))
    S.prove('there is a domain', len(doms) > 0)
    rows = []
    tops = []
    for dom in doms:
        top = check_list(S, dom, case['o'], Lx, Ly, bmin, bx, by)
        n1, n2 = (top.ny, top.nx) if case['o'] == 'long-y' else \
            (top.nx, top.ny)
        rows.append(n2)
        tops.append(n1)
    S.prove('each inner domain has one row more than the one before',
            all(b == a + 1 for a, b in zip(rows, rows[1:])), tuple(rows))
    S.prove('all inner domains end at the same line density',
            len(set(tops)) == 1, tuple(tops))
    if not S.sym and (near(L1, bmin) or near(L2, bmin)):
        return
    S.prove('the densest lines are reached', sand(
        (tops[0] - 1) * bmin <= L1 * (1 + 1e-9),
        tops[0] * bmin >= L1 * (1 - 1e-9)), (tops[0], L1, bmin))
    if not case.get('single'):
        S.prove('the densest rows are reached', sand(
            (rows[-1] - 1) * bmin <= L2 * (1 + 1e-9),
            rows[-1] * bmin >= L2 * (1 - 1e-9)), (rows[-1], L2, bmin))


def near(L, b):
    return abs(L / b - round(L / b)) < 1e-8


def raise_skip(S):
    S.assume(False)
