"""C13 / polygon constraints."""
from checks.dom import *

BOUNDS = ('outlines: triangle, slanted quadrilaterals, L, notch, a comb of 16 corners and rectangle '
          'with corners that are not multiples of the resolution (concrete), '
          'and rectangles with two arbitrary sides; up to 2 boreholes at '
          'arbitrary positions / fields of 3 by 2 at fixed positions; whole designs on fixed outlines with arbitrary '
          'spacing limits')
ASSUMPTIONS = ['boreholes within 0.2 mm of an outline but not on an '
               'axis-parallel part of it may be classified either way (the '
               'library works on a 0.1 mm grid)',
               'outlines have no negative coordinates larger than the grid of '
               'the imaging library (+-200 km)']
DELTA = 2e-4

# outline, convex pieces that make it up
SHAPES = {
    'triangle': ([(0, 0), (40, 0), (10, 30)], [[(0, 0), (40, 0), (10, 30)]]),
    'clockwise': ([(10.3, 30.7), (40.1, 0), (0, 0)],
                  [[(0, 0), (40.1, 0), (10.3, 30.7)]]),
    'quad': ([(5, 0), (36.512345, 7), (30, 29.7), (0, 20)],
             [[(5, 0), (36.512345, 7), (30, 29.7), (0, 20)]]),
    'L': ([(0, 0), (30, 0), (30, 10), (10, 10), (10, 25), (0, 25)],
          [[(0, 0), (30, 0), (30, 10), (0, 10)],
           [(0, 0), (10, 0), (10, 25), (0, 25)]]),
    'notch': ([(0, 0), (30, 0), (30, 20), (15, 5), (0, 20)],
              [[(0, 0), (30, 0), (15, 5)], [(0, 0), (15, 5), (0, 20)],
               [(30, 0), (30, 20), (15, 5)]]),
    'rect': ([(0, 0), (199.92, 0), (199.92, 36.512345), (0, 36.512345)],
             [[(0, 0), (199.92, 0), (199.92, 36.512345), (0, 36.512345)]]),
    'closed': ([(1, 1), (9, 1), (9, 7), (1, 7), (1, 1)],
               [[(1, 1), (9, 1), (9, 7), (1, 7)]]),
    'lean': ([(0, 0), (16, 0), (16, 9), (-6, 17)],
             [[(0, 0), (16, 0), (16, 9), (-6, 17)]]),
    'comb': ([(0, 0), (40, 0), (40, 20), (32, 20), (32, 6), (26, 6), (26, 18),
              (20, 18), (20, 6), (14, 6), (14, 16), (8, 16), (8, 6), (3, 6),
              (3, 12), (0, 12)],
             [[(a, 0), (b, 0), (b, h), (a, h)] for a, b, h in (
                 (0, 40, 6), (32, 40, 20), (20, 26, 18), (8, 14, 16),
                 (0, 3, 12))]),
    'west': ([(-20, -10), (12.5, -10), (12.5, 8), (-20, 8)],
             [[(-20, -10), (12.5, -10), (12.5, 8), (-20, 8)]]),
}


def edges(poly):
    return [(poly[i - 1], poly[i]) for i in range(len(poly))
            if tuple(poly[i - 1]) != tuple(poly[i])]


def in_convex(p, poly):
    """Inside or on a counter-clockwise convex polygon."""
    (x, y) = p
    return sand([(b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0]) >= 0
                 for a, b in edges(poly)])


def near(p, poly):
    """Within the resolution of the outline (a slightly fatter zone)."""
    x, y = p
    out = []
    for a, b in edges(poly):
        dx, dy = b[0] - a[0], b[1] - a[1]
        c = dx * (y - a[1]) - dy * (x - a[0])
        w = DELTA * (abs(dx) + abs(dy))
        out.append(sand(c <= w, c >= -w,
                        x >= min(a[0], b[0]) - DELTA,
                        x <= max(a[0], b[0]) + DELTA,
                        y >= min(a[1], b[1]) - DELTA,
                        y <= max(a[1], b[1]) + DELTA))
    return sor(out)


def on_axis_edge(p, poly):
    """Exactly on an axis-parallel edge."""
    x, y = p
    out = []
    for a, b in edges(poly):
        if a[0] == b[0]:
            out.append(sand(x == a[0], y >= min(a[1], b[1]),
                            y <= max(a[1], b[1])))
        elif a[1] == b[1]:
            out.append(sand(y == a[1], x >= min(a[0], b[0]),
                            x <= max(a[0], b[0])))
    return sor(out)


def which(S, pts, result):
    """Indices of the input points kept, order and values checked."""
    idx = []
    k = 0
    for q in result:
        while k < len(pts):
            p = pts[k]
            d = sand(abs(scalar(q[0]) - p[0]) <= 1e-6,
                     abs(scalar(q[1]) - p[1]) <= 1e-6)
            k += 1
            if d if not is_sym(d) else not S.ctx.sat(z3.Not(d.t)):
                idx.append(k - 1)
                break
        else:
            S.fail('remaining boreholes keep their position and order',
                   (len(pts), len(result)))
            return None
    return idx


MODES = [(True, True), (True, False), (False, True), (False, False)]


def cases(tier):
    cs = []
    for sh in SHAPES:
        for i, (rem, keep) in enumerate(MODES):
            cs.append({'id': 'point-%s-%d' % (sh, i), 'k': 'point',
                       'sh': sh, 'rem': rem, 'keep': keep, 'n': 1})
    cs.append({'id': 'two-L', 'k': 'point', 'sh': 'L', 'rem': False,
               'keep': True, 'n': 2})
    cs.append({'id': 'two-notch', 'k': 'point', 'sh': 'notch', 'rem': True,
               'keep': False, 'n': 2})
    for i, (rem, keep) in enumerate(MODES):
        for free in ('x', 'y') if tier == 'quick' else ('x', 'y', 'corner'):
            cs.append({'id': 'box-%s-%d' % (free, i), 'k': 'box', 'rem': rem,
                       'keep': keep, 'nx': 3 if free == 'x' else 2,
                       'ny': 3 if free == 'y' else 2, 'free': free})
        cs.append({'id': 'empty-%d' % i, 'k': 'empty', 'rem': rem,
                   'keep': keep})
    for sh, b in (('L', None), ('rect', 'box'), ('notch', 'tri'),
                  ('triangle', None), ('quad', 'box'), ('L', 'all'),
                  ('lean', None), ('L', 'wing'), ('L', 'stairs'), ('comb', None)):
        if tier == 'quick' and sh in ('quad', 'comb'):
            continue
        cs.append({'id': 'design-%s-%s' % (sh, b), 'k': 'design', 'sh': sh,
                   'b': b})
    return cs


BUILD = {'box': [(8., 3.), (21.37, 3.), (21.37, 14.2), (8., 14.2)],
         'tri': [(2., 1.), (28., 1.), (15., 4.)],
         'wing': [(12., 0.), (24., 0.), (24., 3.), (18., 3.), (18., 7.),
                  (12., 7.)],
         'stairs': [(12., 0.), (24., 0.), (24., 1.), (22., 1.), (22., 2.),
                    (20., 2.), (20., 3.), (18., 3.), (18., 4.), (16., 4.),
                    (16., 5.), (14., 5.), (14., 7.), (12., 7.)],
         'all': [(0., 0.), (100., 0.), (100., 100.), (0., 100.)]}
BUILD_PIECES = {k: [v] for k, v in BUILD.items()}
BUILD_PIECES['wing'] = [[(12., 0.), (24., 0.), (24., 3.), (12., 3.)],
                        [(12., 0.), (18., 0.), (18., 7.), (12., 7.)]]

BUILD_PIECES['stairs'] = [[(12., 0.), (x, 0.), (x, y), (12., y)] for x, y in (
    (24., 1.), (22., 2.), (20., 3.), (18., 4.), (16., 5.), (14., 7.))]


def harness(S, case):
    dt, plat, gt = mods(S)
    fr = dt.feature_recognition
    k = case['k']
    if k == 'point':
        poly, pieces = SHAPES[case['sh']]
        ex = [p for p, in zip([c for c in poly])]
        xs, ys = [p[0] for p in ex], [p[1] for p in ex]
        pts = [(S.real('x%d' % i, min(xs) - 3, max(xs) + 3),
                S.real('y%d' % i, min(ys) - 3, max(ys) + 3))
               for i in range(case['n'])]
        if case['n'] > 1:
            S.assume(pts[1][0] >= pts[0][0] + 1)
        if not S.sym:       # avoid float noise right at the margins
            pass
        out = fr.remove_cutout(list(pts), boundary=[list(p) for p in poly],
                               remove_inside=case['rem'],
                               keep_contour=case['keep'])
        idx = which(S, pts, out)
        if idx is None:
            return
        for i, p in enumerate(pts):
            got = i in idx
            inside = sor([in_convex(p, c) for c in pieces])
            nr = near(p, poly)
            want = snot(inside) if case['rem'] else inside
            S.prove('boreholes clear of the outline are kept exactly when '
                    'they are on the right side of it',
                    sor(nr, want if got else snot(want)), p)
            S.prove('boreholes on the outline follow keep_contour',
                    simplies(on_axis_edge(p, poly), got == case['keep']), p)
        return
    if k == 'empty':
        pts = [(S.real('x', -50, 50), S.real('y', -50, 50)), (1., 2.)]
        for b in (None, []):
            out = fr.remove_cutout(list(pts), boundary=b,
                                   remove_inside=case['rem'],
                                   keep_contour=case['keep'])
            S.prove('an empty outline contains nothing',
                    len(out) == (2 if case['rem'] else 0), len(out))
        return
    if k == 'box':
        fr_ = case['free']
        x0 = S.real('x0', 0, 30) if fr_ != 'y' else 0.5
        x1 = S.real('x1', 0, 30) if fr_ == 'x' else 20.
        y0 = S.real('y0', 0, 30) if fr_ != 'x' else 3.5
        y1 = S.real('y1', 0, 30) if fr_ == 'y' else 20.
        S.assume(sand(x1 >= x0 + 0.5, y1 >= y0 + 0.5))
        pts = [(5. * i + 2., 5. * j + 3.5) for i in range(case['nx'])
               for j in range(case['ny'])]
        out = fr.remove_cutout(list(pts), boundary=[
            [x0, y0], [x1, y0], [x1, y1], [x0, y1]],
            remove_inside=case['rem'], keep_contour=case['keep'])
        idx = which(S, pts, out)
        if idx is None:
            return
        S.prove('no borehole is returned twice', len(set(idx)) == len(idx))
        for i, (x, y) in enumerate(pts):
            got = i in idx
            inside = sand(x > x0, x < x1, y > y0, y < y1)
            band = sor([abs(a - b) <= DELTA for a, b in
                        ((x, x0), (x, x1), (y, y0), (y, y1))])
            on = sor(sand(sor(x == x0, x == x1), y >= y0, y <= y1),
                     sand(sor(y == y0, y == y1), x >= x0, x <= x1))
            want = snot(inside) if case['rem'] else inside
            S.prove('boreholes clear of the outline are kept exactly when '
                    'they are on the right side of it',
                    sor(band, want if got else snot(want)), (x, y))
            S.prove('boreholes on the outline follow keep_contour',
                    simplies(on, got == case['keep']), (x, y))
        return
    # whole domain
    poly, pieces = SHAPES[case['sh']]
    bmin = S.real('B_min', 3, 6)
    bx = S.real('B_max_x', 8, 20)
    by = S.real('B_max_y', 8, 20)
    build = BUILD.get(case['b'])
    Lx = float(max(p[0] for p in poly))
    Ly = float(max(p[1] for p in poly))
    if case['sh'] == 'rect':
        S.assume(sand(bmin >= 5.9, bx >= 17, by >= 17))
    ref = dt.domains.bi_rectangle_nested(Lx, Ly, bmin, bx, by)
    kw = {} if build is None else {'building_description':
                                   [list(p) for p in build]}
    dom = dt.domains.polygonal_land_constraint(
        [list(p) for p in poly], bmin, bx, by, **kw)
    S.prove('one domain per outer spacing', len(dom) == len(ref),
            (len(dom), len(ref)))
    for inner, rinner in zip(dom, ref):
        counts = [len(f) for f in inner]
        S.prove('no field is empty', all(counts))
        S.prove('fields grow', counts == sorted(counts), counts)
        want = []
        for f in rinner:
            sure, maybe = [], []
            for p in f:
                p = (scalar(p[0]), scalar(p[1]))
                ok = decide(p, poly, pieces, build, case['b'])
                if ok is True:
                    sure.append(p)
                elif ok is None:
                    maybe.append(p)
            want.append((sure, maybe))
        must = [w for w in want if w[0]]
        S.prove('every field that keeps a borehole is there',
                len(must) <= len(inner) <= len(rinner),
                (len(must), len(inner), len(rinner)))
        left = list(want)
        for f in inner:
            for w in left:
                if match(f, *w):
                    left.remove(w)
                    break
            else:
                S.fail('a field keeps exactly the boreholes on the property '
                       'and off the building', (len(f), counts))
        S.prove('no field is lost', not [w for w in left if w[0]])


def decide(p, poly, pieces, build, bname):
    """True/False when sure, None within the resolution of an outline."""
    if on_axis_edge(p, poly):
        ok = True
    elif near(p, poly):
        return None
    else:
        ok = any(in_convex(p, c) for c in pieces)
    if not ok:
        return False
    if build is None:
        return True
    if on_axis_edge(p, build):
        return False
    if near(p, build):
        return None
    return not any(in_convex(p, c) for c in BUILD_PIECES[bname])


def match(f, sure, maybe):
    f = [(scalar(p[0]), scalar(p[1])) for p in f]
    if not len(sure) <= len(f) <= len(sure) + len(maybe):
        return False
    key = lambda p: (round(p[0], 5), round(p[1], 5))
    got = {key(p) for p in f}
    return {key(p) for p in sure} <= got <= {key(p) for p in sure + maybe}
