"""C14 / ordering of domains, size arithmetic."""
from checks.dom import *
import numpy as _np

BOUNDS = ('domains of up to 5 (6 thorough) fields of 1 to 4 boreholes in any '
          'order, and of 40 (150) fields of up to 113 boreholes of which two are free; row counts up to 12 (40 thorough) with any spacing; any '
          'length up to 12 (40) spacings; polygons of up to 5 corners, any '
          'coordinates')
ASSUMPTIONS = ['lengths within 1e-8 spacings of a whole number of spacings '
               'count as that number']


def cases(tier):
    n = 5 if tier == 'quick' else 6
    cs = [{'id': 'order-%d' % k, 'k': 'order', 'n': k}
          for k in range(1, n + 1)]
    for k in (40,) if tier == 'quick' else (40, 150):
        cs.append({'id': 'order-large-%d' % k, 'k': 'order', 'n': k,
                   'free': 2})
    top = 12 if tier == 'quick' else 40
    cs += [{'id': 'side-%d' % k, 'k': 'side', 'N': k}
           for k in range(2, top + 1)]
    cs += [{'id': 'length-' + f, 'k': 'length', 'f': f, 'top': top}
           for f in ('ceil', 'floor')]
    cs += [{'id': 'area-%d' % k, 'k': 'area', 'n': k} for k in (3, 4, 5)]
    cs.append({'id': 'area-rectangle', 'k': 'rect'})
    cs.append({'id': 'spacing', 'k': 'spacing'})
    return cs


def harness(S, case):
    dt, plat, gt = mods(S)
    ut = dt.utilities
    k = case['k']
    if k == 'order':
        n = case['n']
        dom = []
        for i in range(n):
            if i >= case.get('free', n):
                c = (i * 37) % 113 + 1
            else:
                c = S.int('count%d' % i, 1, 3 if n > 4 else 4)
            # the field is recognisable by its position in the domain
            dom.append([(float(i), float(j)) for j in range(c)])
        out = dt.domains.reorder_domain([list(f) for f in dom])
        S.prove('every field is returned exactly once',
                sorted(map(tuple, out)) == sorted(map(tuple, dom)),
                [len(f) for f in dom])
        S.prove('the borehole count does not fall',
                [len(f) for f in out] == sorted(len(f) for f in dom))
        return
    if k == 'side':
        N = case['N']
        B = S.real('B', 0.5, 50)
        L = ut.length_of_side(N, B)
        S.prove('a side of N boreholes is N-1 spacings long',
                abs(L - (N - 1) * B) <= 1e-9 * N)
        S.prove('the spacing along the side is recovered',
                abs(ut.spacing_along_length(L, N) - B) <= 1e-9)
        S.prove('the boreholes along the side are recovered (ceil)',
                ut.number_of_boreholes(L, B, func=_np.ceil if not S.sym else
                                       _ceil) == N)
        S.prove('the boreholes along the side are recovered (floor)',
                ut.number_of_boreholes(L, B, func=_np.floor if not S.sym else
                                       _floor) == N)
        return
    if k == 'length':
        B = S.real('B', 0.5, 20)
        L = S.real('L', 0.5, 500)
        S.assume(L <= case['top'] * B)
        if case['f'] == 'ceil':
            N = ut.number_of_boreholes(L, B) if False else \
                ut.number_of_boreholes(L, B, func=_np.ceil if not S.sym
                                       else _ceil)
            S.prove('the boreholes cover the side',
                    sand((N - 1) * B >= L - 1e-8 * B,
                         (N - 2) * B <= L + 1e-8 * B), (N, L, B))
            d = ut.number_of_boreholes(L, B)
            S.prove('the default rounds up', d == N, (d, N))
        else:
            N = ut.number_of_boreholes(L, B, func=_np.floor if not S.sym
                                       else _floor)
            S.prove('the boreholes fit on the side',
                    sand((N - 1) * B <= L + 1e-8 * B,
                         N * B >= L - 1e-8 * B), (N, L, B))
        S.prove('the count is a whole number of at least one', sand(
            N >= 1, isinstance(N, int)), N)
        return
    if k == 'area':
        n = case['n']
        p = [(S.real('x%d' % i, -100, 100), S.real('y%d' % i, -100, 100))
             for i in range(n)]
        a = ut.polygonal_area([list(q) for q in p])
        S.prove('an area is not negative', a >= 0)
        # fan of signed triangles
        t = 0.
        for i in range(1, n - 1):
            (x0, y0), (x1, y1), (x2, y2) = p[0], p[i], p[i + 1]
            t = t + ((x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)) / 2
        S.prove('the area is that of the triangles of the polygon',
                sor(abs(a - t) <= 1e-6, abs(a + t) <= 1e-6), (a, t))
        r = ut.polygonal_area([list(q) for q in p[1:] + p[:1]])
        S.prove('the first corner does not matter', abs(r - a) <= 1e-6)
        b = ut.polygonal_area([list(q) for q in p[::-1]])
        S.prove('the direction does not matter', abs(b - a) <= 1e-6)
        return
    if k == 'rect':
        lx, ly = S.real('lx', 0, 500), S.real('ly', 0, 500)
        ox, oy = S.real('ox', -500, 500), S.real('oy', -500, 500)
        p = ut.make_rectangle_perimeter(lx, ly, origin=(ox, oy))
        S.prove('a rectangle has four corners', len(p) == 4)
        S.prove('the area of a rectangle is length times width',
                abs(ut.polygonal_area(p) - lx * ly) <= 1e-5)
        S.prove('the rectangle has the sides that were asked for', sand(
            [sor([sand(abs(q[0] - (ox + a * lx)) <= 1e-9,
                       abs(q[1] - (oy + b * ly)) <= 1e-9) for q in p])
             for a in (0, 1) for b in (0, 1)]))
        q = ut.make_rectangle_perimeter(lx, ly)
        S.prove('the origin is the default corner', sand(
            q[0][0] == 0, q[0][1] == 0))
        return
    # spacing of a field
    rb = S.real('r_b', 0.02, 0.5)
    bh = types.SimpleNamespace(r_b=rb)
    x, y = S.real('dx', -20, 20), S.real('dy', -20, 20)
    x0, y0 = S.real('x0', -20, 20), S.real('y0', -20, 20)
    B = ut.borehole_spacing(bh, [(x0, y0)])
    S.prove('a single borehole has its radius for a spacing', B == rb)
    B = ut.borehole_spacing(bh, [(x0, y0), (x0 + x, y0 + y), (x0, y0 + 99)])
    S.prove('the spacing is the distance of the first two boreholes', sor(
        sand(abs(B * B - (x * x + y * y)) <= 1e-6, B >= 0),
        sand(B == rb, x * x + y * y <= rb * rb + 1e-6)), B)
    S.prove('the spacing is at least the radius', B >= rb)


def _ceil(x):
    import math
    return math.ceil(x)


def _floor(x):
    import math
    return math.floor(x)
