"""C31 / placement of the pipe legs."""
from checks.env import *
import math

BOUNDS = ('one to six (twelve thorough) U-tubes, spacing between outer walls '
          '0 to 0.2 m and pipe radius 1 mm to 0.1 m arbitrary')
ASSUMPTIONS = ['angles are exact to double precision']


def cases(tier):
    return [{'id': '%d-tubes' % n, 'n': n}
            for n in range(1, 7 if tier == 'quick' else 13)]


def harness(S, case):
    dt, plat, gt = mods(S)
    n = case['n']
    s = S.real('s', 0, 0.2)
    r = S.real('r_out', 0.001, 0.1)
    pos = plat.media.Pipe.place_pipes(s, r, n)
    P = [(scalar(x), scalar(y)) for x, y in pos]
    S.prove('two legs for every tube', len(P) == 2 * n)
    c = s / 2 + r
    tol = 1e-9
    for i, (x, y) in enumerate(P):
        S.prove('the legs are on one circle around the borehole axis',
                abs(x * x + y * y - c * c) <= tol, (i, x, y, c))
        # legs j and j + n are one tube for the borehole models
        u, v = P[(i + n) % (2 * n)]
        S.prove('the legs of a tube face each other',
                sand(abs(u + x) <= tol, abs(v + y) <= tol), (i, x, y, u, v))
    x, y = P[0]
    u, v = P[n]
    S.prove('the walls of the legs of a tube are the spacing apart', abs(
        (x - u) * (x - u) + (y - v) * (y - v)
        - (s + 2 * r) * (s + 2 * r)) <= tol, (s, r))
    gap = 2. * math.sin(math.pi / (2 * n))
    for i in range(2 * n):
        for j in range(i):
            (a, b), (d, e) = P[i], P[j]
            S.prove('no two legs are closer than even placement puts them',
                    (a - d) * (a - d) + (b - e) * (b - e)
                    >= gap * gap * c * c - tol, (i, j))
    ring = sand([abs(x * x + y * y - c * c) <= tol for x, y in P])
    S.prove('the tubes reach no further than spacing and pipes',
            ring, (s, r))
    pipe = plat.media.Pipe(pos, r * 0.8, r, s, 1e-6, 0.4, 1.5e6)
    S.prove('the pipe knows its number of tubes', pipe.n_pipes == n)
    S.prove('the pipe keeps positions and spacing', pipe.pos is pos and
            pipe.s is s and pipe.r_out is r)
