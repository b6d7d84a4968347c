"""C08 / uniform rectangular domains."""
from checks.dom import *

BOUNDS = ('land sides and spacing limits arbitrary reals, either orientation, '
          'with at most 5 (quick) / 8 (thorough) spacings along a side')
ASSUMPTIONS = []


def cases(tier):
    n = 5 if tier == 'quick' else 8
    cs = []
    for o in ('long-x', 'long-y'):
        for k in range(1, n + 1):
            cs.append({'id': '%s-%d' % (o, k), 'o': o, 'n': k})
        cs.append({'id': 'design-' + o, 'o': o, 'n': 3, 'design': True})
        cs.append({'id': 'fixed-%s' % o, 'o': o, 'n': 14, 'fixed': True})
    cs.append({'id': 'square-3', 'o': 'square', 'n': 3})
    return cs


def land(S, case):
    """Sides with k-1 < long / B_min <= k."""
    n = case['n']
    bmin = S.real('B_min', 1, 20)
    bmax = S.real('B_max', 1, 60)
    S.assume(bmax >= bmin)
    if case.get('fixed'):
        # a finer grid: one side and the limits are numbers
        bmin, bmax = 4., 7.
        l1 = 4.5 * n
        l2 = S.real('short', 3, l1)
    else:
        l1 = S.real('long', 1, 400)
        l2 = S.real('short', 0.5, 400)
        S.assume(l1 >= bmin * (n if n == 1 else n - 1))
        S.assume(l1 <= bmin * n if n > 1 else l1 <= bmin * 1.999)
    if case['o'] == 'square':
        l2 = l1
    else:
        S.assume(l2 < l1)
    return (l1, l2, bmin, bmax) if case['o'] != 'long-y' else \
        (l2, l1, bmin, bmax)


def harness(S, case):
    dt, plat, gt = mods(S)
    Lx, Ly, bmin, bmax = land(S, case)
    if case.get('design'):
        m = media(S, dt, plat, gt)
        sp = plat.media.SimulationParameters(1, 240, 35., 5., 135., 60.)
        geo = dt.media.GeometricConstraints(
            length=Lx, width=Ly, B_min=bmin, B_max_x=bmax)
        d = dt.design.Design(
            0.2, m.borehole, plat.borehole_heat_exchangers.SingleUTube,
            m.fluid, m.pipe, m.grout, m.soil, sp, geo, m.loads,
            flow='borehole', routine='rectangle')
        dom = d.coordinates_domain
    else:
        dom = dt.domains.rectangular(Lx, Ly, bmin, bmax)
    L1, L2 = (Ly, Lx) if case['o'] == 'long-y' else (Lx, Ly)
    S.observe('fields', len(dom))
    # the spacing limits may admit no whole number of spacings
    last = 0
    densest = 0
    for i, f in enumerate(dom):
        lat = Lattice(S, f)
        S.prove('fields are full grids', lat.full() and len(f) > 0)
        prove_inside(S, lat, Lx, Ly)
        g = gaps(lat.xs) + gaps(lat.ys)
        if g:
            S.prove('one spacing in both directions', sand(
                [abs(d - g[0]) <= TOL for d in g]))
            S.prove('the spacing is within the limits', sand(
                g[0] >= bmin - TOL, g[0] <= bmax + TOL), (g[0], bmin, bmax))
        S.prove('the borehole count increases', len(f) > last,
                (i, last, len(f)))
        last = len(f)
        n1, n2 = (lat.ny, lat.nx) if case['o'] == 'long-y' else \
            (lat.nx, lat.ny)
        if n2 > 1 and n1 > densest:
            densest = n1
        S.prove('a single row runs along the long side', n2 == 1 or
                n1 > 1 or i == 0)
    if not dom:
        S.prove('empty only when the limits admit no whole spacing',
                snot(sor([sand(L1 >= k * bmin * (1 + 1e-9),
                               L1 <= k * bmax * (1 - 1e-9))
                          for k in range(1, case['n'] + 1)])))
        return
    S.prove('the first field is a single borehole', len(dom[0]) == 1)
    if not S.sym and abs(L1 / bmin - round(L1 / bmin)) < 1e-9:
        return      # floats cannot tell which side of the limit this is
    # the last field has as many rows as the densest spacing allows
    nmax = None
    for k in range(case['n'] + 9, 0, -1):
        if k * bmin <= L1:
            nmax = k
            break
    b = L1 / float(nmax)
    rows = Lattice(S, dom[-1])
    rows = rows.nx if case['o'] == 'long-y' else rows.ny
    S.prove('the last field has the most rows the limits allow', sand(
        (rows - 1) * b <= L2 + TOL, rows * b >= L2 - TOL), (rows, b, L2))
