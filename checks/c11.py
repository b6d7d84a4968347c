"""C11 / coordinate generators."""
from checks.dom import *

BOUNDS = ('row counts 1..5 (quick) / 1..8 (thorough), every one of them, and '
          'some shapes of 19 by 23 (also 33 by 20, 9 by 41); '
          'spacings and origin arbitrary reals')
ASSUMPTIONS = []


def cases(tier):
    n = 5 if tier == 'quick' else 8
    cs = []
    for sh in ('rectangle', 'open', 'U', 'L', 'lopU', 'C', 'zoned',
               'transpose', 'perimeter'):
        for nx in range(1, n + 1):
            cs.append({'id': '%s-%d' % (sh, nx), 'shape': sh, 'nx': nx,
                       'n': n})
    big = [(19, 23)] if tier == 'quick' else [(19, 23), (33, 20), (9, 41)]
    for a, b in big:
        for sh in ('rectangle', 'open', 'U', 'L', 'lopU', 'C', 'zoned',
                   'transpose'):
            cs.append({'id': 'big-%s-%dx%d' % (sh, a, b), 'shape': sh,
                       'nx': a, 'ny': b, 'inner': 8})
    return cs


def harness(S, case):
    dt, plat, gt = mods(S)
    co = dt.coordinates
    nx = case['nx']
    bx = S.real('Bx', 0.1, 50)
    by = S.real('By', 0.1, 50)
    sh = case['shape']

    def full(a, b):
        return [(i, j) for i in range(a) for j in range(b)]
    if sh == 'perimeter':
        lx, ly = bx * nx, by
        ox, oy = S.real('ox', -50, 50), S.real('oy', -50, 50)
        p = dt.utilities.make_rectangle_perimeter(lx, ly, origin=(ox, oy))
        prove_same(S, 'the corners of the rectangle', p, [
            (ox, oy), (ox + lx, oy), (ox + lx, oy + ly), (ox, oy + ly)])
        S.eq('the polygon area is the area of the rectangle',
             dt.utilities.polygonal_area(p), lx * ly)
        return
    ny = case.get('ny') or S.int('Ny', 1, case['n'])

    def inner(name, lo, hi):
        # counts within the shape: any, or a fixed one of a large shape
        if 'inner' in case:
            return min(case['inner'], hi)
        return S.int(name, lo, hi)
    o = (0., 0.)
    if sh == 'rectangle':
        o = (S.real('ox', -50, 50), S.real('oy', -50, 50))
        f = co.rectangle(nx, ny, bx, by, origin=o)
        want = full(nx, ny)
    elif sh == 'open':
        f = co.open_rectangle(nx, ny, bx, by)
        want = [(i, j) for i, j in full(nx, ny)
                if i in (0, nx - 1) or j in (0, ny - 1)]
    elif sh == 'U':
        f = co.U_shape(nx, ny, bx, by)
        want = [(i, j) for i, j in full(nx, ny)
                if i in (0, nx - 1) or j == 0]
    elif sh == 'L':
        f = co.L_shape(nx, ny, bx, by)
        want = [(i, j) for i, j in full(nx, ny) if i == 0 or j == 0]
    elif sh == 'lopU':
        if nx < 2:
            return S.prove('needs two columns', True)
        n2 = inner('Ny_2', 1, case.get('n', ny))
        f = co.lop_U(nx, ny, bx, by, n2)
        want = [(i, 0) for i in range(nx)] + \
            [(0, j) for j in range(1, ny)] + \
            [(nx - 1, j) for j in range(1, n2)]
    elif sh == 'C':
        if nx < 3 or ny < 2:
            return S.prove('needs three columns and two rows', True)
        n2 = inner('Nx_2', 1, nx - 2)
        f = co.C_shape(nx, ny, bx, by, n2)
        want = [(i, 0) for i in range(nx)] + \
            [(i, j) for j in range(1, ny) for i in (0, nx - 1)] + \
            [(i, ny - 1) for i in range(1, n2 + 1)]
    elif sh == 'transpose':
        f0 = co.rectangle(nx, ny, bx, by)
        f = co.transpose_coordinates(co.transpose_coordinates(f0))
        g = co.transpose_coordinates(f0)
        prove_same(S, 'transposing swaps x and y', g,
                   [(j * by, i * bx) for i, j in full(nx, ny)])
        S.prove('transposing keeps the order', len(g) == len(f0) and sand(
            [sand(p[0] == q[1], p[1] == q[0]) for p, q in zip(f0, g)]))
        want = full(nx, ny)
    else:
        nix = inner('Nix', 1, case.get('n', nx))
        niy = inner('Niy', 1, case.get('n', ny))
        valid = nix <= nx - 2 and niy <= ny - 2
        try:
            f = co.zoned_rectangle(nx, ny, bx, by, nix, niy)
        except ValueError:
            S.prove('refuses only too many interior boreholes', not valid,
                    (nx, ny, nix, niy))
            return
        S.prove('too many interior boreholes are refused', valid,
                (nx, ny, nix, niy))
        W, Ht = (nx - 1) * bx, (ny - 1) * by
        pts = [(i * bx, j * by) for i, j in full(nx, ny)
               if i in (0, nx - 1) or j in (0, ny - 1)]
        pts += [(W * a / (nix + 1.), Ht * b / (niy + 1.))
                for a in range(1, nix + 1) for b in range(1, niy + 1)]
        prove_same(S, 'perimeter plus an even interior grid', f, pts)
        S.observe('count', len(f))
        return
    S.observe('count', len(f))
    S.prove('no borehole twice', len(f) == len(want) and
            Lattice(S, f).distinct())
    prove_same(S, 'exactly the points of the shape', f,
               [(o[0] + i * bx, o[1] + j * by) for i, j in want])
