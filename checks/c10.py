"""C10 / bi-zoned domains."""
from checks.dom import *

BOUNDS = ('land sides and spacing limits arbitrary reals, either orientation, '
          'at most 4 (quick) / 6 (thorough) minimum spacings along the long '
          'side; zoned fields of up to 6 by 6 perimeter boreholes')
ASSUMPTIONS = ['both sides need at least three boreholes at the maximum '
               'spacing (the zoned layout has no interior otherwise) and the '
               'limits admit that number at the minimum spacing']


def cases(tier):
    n = 4 if tier == 'quick' else 5
    cs = []
    for o in ('long-x', 'long-y'):
        for k in range(3, n + 1):
            for k2 in range(2, k):
                cs.append({'id': 'nested-%s-%d-%d' % (o, k, k2), 'o': o,
                           'n': k, 'n2': k2})
        cs.append({'id': 'design-' + o, 'o': o, 'n': 3, 'n2': 2,
                   'design': True})
        top = 6 if tier == 'quick' else 8
        for a in range(3, top + 1):
            for b in range(3, top + 1):
                if tier == 'quick' and (a + b) % 2 == 0 and a != b:
                    continue
                cs.append({'id': 'zoned-%s-%dx%d' % (o, a, b), 'o': o,
                           'zoned': (a, b)})
    cs.append({'id': 'square', 'o': 'square', 'n': 3, 'n2': 3})
    return cs


def check_field(S, f, Lx, Ly, bmin, bx, by, last):
    lat = Lattice(S, f)
    S.prove('boreholes are distinct', lat.distinct())
    prove_inside(S, lat, Lx, Ly)
    S.prove('the borehole count does not fall', len(f) >= last,
            (last, len(f)))
    # any two boreholes are a minimum spacing apart along x or along y
    dx = {}
    for i in range(lat.nx):
        for j in range(i, lat.nx):
            dx[i, j] = lat.xs[j] - lat.xs[i]
    dy = {}
    for i in range(lat.ny):
        for j in range(i, lat.ny):
            dy[i, j] = lat.ys[j] - lat.ys[i]
    seen = set()
    conds = []
    for p in range(len(lat.pts)):
        for q in range(p + 1, len(lat.pts)):
            (a, b), (c, d) = lat.pts[p], lat.pts[q]
            k = (min(a, c), max(a, c), min(b, d), max(b, d))
            if k in seen:
                continue
            seen.add(k)
            conds.append((dx[k[0], k[1]], dy[k[2], k[3]]))
    uniq = {}
    for u, v in conds:
        key = tuple(z3.simplify(w.t, som=True).get_id() if is_sym(w) else w
                    for w in (u, v))
        uniq.setdefault(key, (u, v))
    if uniq:
        S.prove('no two boreholes are closer than the minimum spacing', sand(
            [sor(u >= bmin - TOL, v >= bmin - TOL)
             for u, v in uniq.values()]), (len(uniq),))
    for vals, lim, axis in (
            ([lat.xs[i] for i in sorted({i for i, j in lat.pts if j == 0})],
             bx, 'x'),
            ([lat.ys[j] for j in sorted({j for i, j in lat.pts if i == 0})],
             by, 'y')):
        prove_gaps(S, 'edge spacing along %s is within its limits' % axis,
                   vals, bmin, lim)
    return lat


def perimeter(lat):
    """(points on the bounding rectangle, interior points)"""
    edge = [p for p in lat.pts if p[0] in (0, lat.nx - 1) or
            p[1] in (0, lat.ny - 1)]
    return edge, [p for p in lat.pts if p not in edge]


def check_zoned(S, lat, Lx, Ly):
    S.prove('a zoned field spans the land', sand(
        abs(lat.xs[-1] - Lx) <= 10 * TOL, abs(lat.ys[-1] - Ly) <= 10 * TOL,
        abs(lat.xs[0]) <= TOL, abs(lat.ys[0]) <= TOL),
        (lat.xs[-1], lat.ys[-1], Lx, Ly))
    edge, inner = perimeter(lat)
    sides = [sorted(j for i, j in edge if i == 0),
             sorted(j for i, j in edge if i == lat.nx - 1),
             sorted(i for i, j in edge if j == 0),
             sorted(i for i, j in edge if j == lat.ny - 1)]
    S.prove('opposite sides of the perimeter match', sides[0] == sides[1] and
            sides[2] == sides[3])
    ix = sorted({i for i, j in inner})
    iy = sorted({j for i, j in inner})
    S.prove('the interior is a full grid', len(inner) == len(ix) * len(iy)
            and len(inner) > 0)
    for name, idx, vals, L in (('x', ix, lat.xs, Lx), ('y', iy, lat.ys, Ly)):
        g = gaps([vals[0]] + [vals[i] for i in idx] + [vals[-1]])
        S.prove('the interior is spread evenly along ' + name, sand(
            [abs(d - g[0]) <= TOL * 10 for d in g]))
    nx, ny = len(sides[2]), len(sides[0])
    S.prove('the interior is no denser than the perimeter',
            len(ix) <= nx - 2 and len(iy) <= ny - 2)
    return nx, ny, len(ix), len(iy)


def harness(S, case):
    dt, plat, gt = mods(S)
    if 'zoned' in case:
        a, b = case['zoned']
        L1 = S.real('long', 1, 400)
        L2 = S.real('short', 1, 400)
        S.assume(sand(L2 < L1, L2 * 4 >= L1))
        if case['o'] == 'long-y':
            Lx, Ly, tr = L2, L1, True
        else:
            Lx, Ly, tr = L1, L2, False
        # counts are given along the long and the short side
        if tr:
            dom = dt.domains.zoned_rectangle_domain(L1, L2, a, b,
                                                    transpose=True)
            nxy = (b, a)
        else:
            dom = dt.domains.zoned_rectangle_domain(Lx, Ly, a, b)
            nxy = (a, b)
        prev = None
        S.prove('every interior is visited', len(dom) == a + b - 5,
                (len(dom), a + b - 5))
        for f in dom:
            lat = Lattice(S, f)
            S.prove('boreholes are distinct', lat.distinct())
            prove_inside(S, lat, Lx, Ly)
            r = check_zoned(S, lat, Lx, Ly)
            S.prove('the perimeter has the requested boreholes',
                    r[:2] == nxy, r)
            if prev is None:
                S.prove('the first interior is one borehole',
                        r[2:] == (1, 1))
            else:
                S.prove('the interior grows by one line at a time',
                        sorted((r[2] - prev[2], r[3] - prev[3])) == [0, 1])
            prev = r
        S.prove('the last field is a full grid',
                Lattice(S, dom[-1]).full() and len(dom[-1]) == a * b)
        S.observe('fields', len(dom))
        return
    n, n2 = case['n'], case['n2']
    bmin = S.real('B_min', 1, 20)
    bx = S.real('B_max_x', 1, 60)
    by = S.real('B_max_y', 1, 60)
    S.assume(sand(bx >= bmin, by >= bmin))
    L1 = S.real('long', 1, 400)
    S.assume(sand(L1 >= bmin * (n - 1), L1 <= bmin * n))
    if case['o'] == 'square':
        L2 = L1
    else:
        L2 = S.real('short', 1, 400)
        S.assume(sand(L2 < L1, L2 >= bmin * n2, L2 <= bmin * (n2 + 1)))
    Lx, Ly, b1, b2 = (L2, L1, by, bx) if case['o'] == 'long-y' else \
        (L1, L2, bx, by)
    for L, bm, k in ((L1, b1, n), (L2, b2, n)):
        S.assume(L > bm * (1 + 1e-6))
        S.assume(sor([sand(L >= i * bmin * (1 + 1e-6),
                           L <= i * bm * (1 - 1e-6))
                      for i in range(2, k + 2)]))
    if case.get('design'):
        m = media(S, dt, plat, gt)
        sp = plat.media.SimulationParameters(1, 240, 35., 5., 135., 60.)
        geo = dt.media.GeometricConstraints(
            length=Lx, width=Ly, B_min=bmin, B_max_x=bx, B_max_y=by)
        doms = dt.design.Design(
            0.2, m.borehole, plat.borehole_heat_exchangers.SingleUTube,
            m.fluid, m.pipe, m.grout, m.soil, sp, geo, m.loads,
            flow='borehole', routine='bi-zoned').coordinates_domain_nested
    else:
        doms = dt.domains.bi_rectangle_zoned_nested(Lx, Ly, bmin, bx, by)
    S.observe('domains', len(doms))
    S.prove('there is a domain', len(doms) > 0)
    prev = None
    for di, dom in enumerate(doms):
        last = 0
        zoned = di > 0
        S.prove('inner domains are not empty', len(dom) > 0)
        if di == 0:
            S.prove('the first field is a single borehole', len(dom[0]) == 1)
        first = None
        for f in dom:
            lat = check_field(S, f, Lx, Ly, bmin, bx, by, last)
            last = len(f)
            if not zoned and lat.nx > 2 and lat.ny > 2 and \
                    perimeter(lat)[1]:
                zoned = True
            if zoned:
                r = check_zoned(S, lat, Lx, Ly)
                if first is None:
                    first = r[:2]
                S.prove('the perimeter stays the same within a domain',
                        r[:2] == first, (r, first))
        S.prove('every inner domain reaches zoned fields', first is not None)
        if prev is not None:
            S.prove('perimeters grow by one borehole per domain', sorted(
                (first[0] - prev[0], first[1] - prev[1])) == [0, 1],
                (prev, first))
        prev = first
    if not S.sym and (abs(L1 / bmin - round(L1 / bmin)) < 1e-8 or
                      abs(L2 / bmin - round(L2 / bmin)) < 1e-8):
        return
    S.prove('the densest perimeter is reached', sand(
        (prev[0] - 1) * bmin <= Lx * (1 + 1e-9),
        prev[0] * bmin >= Lx * (1 - 1e-9),
        (prev[1] - 1) * bmin <= Ly * (1 + 1e-9),
        prev[1] * bmin >= Ly * (1 - 1e-9)), (prev, Lx, Ly, bmin))
