"""C28 / the bounded root solver."""
from checks.env import *

BOUNDS = ('bounds and start arbitrary reals in [0.001, 1000] (default bounds '
          'included); residual any strictly monotone, or any, function')
ASSUMPTIONS = ['brentq is replaced by its contract: result within the bounds, '
               'sign change within twice its tolerance, whenever it is allowed '
               '100 iterations']


def cases(tier):
    cs = []
    for mono in ('inc', 'dec', 'any'):
        for b in ('given', 'default', 'lower', 'upper'):
            cs.append({'id': '%s-%s' % (mono, b), 'mono': mono, 'bounds': b})
    cs.append({'id': 'tol', 'mono': 'inc', 'bounds': 'given', 'tol': 0.05})
    cs.append({'id': 'tol2', 'mono': 'dec', 'bounds': 'given', 'tol': 1e-9})
    cs += [{'id': 'slow-%s' % m, 'mono': m, 'bounds': 'default', 'slow': True}
           for m in ('inc', 'dec')]
    return cs


def harness(S, case):
    dt, plat, gt = mods(S)
    slow = case.get('slow')
    x = 2. if slow else S.real('x', 0.01, 100)
    lo, hi = x / 100., x * 10.
    k = {}
    if slow:
        S.slow_roots(100)
    if case['bounds'] in ('given', 'lower'):
        lo = k['lower'] = S.real('lower', 0.001, 100)
    if case['bounds'] in ('given', 'upper'):
        hi = k['upper'] = S.real('upper', 0.001, 1000)
    S.assume(hi > lo * 1.001)
    tol = case.get('tol')
    if tol:
        k['xtol'] = k['rtol'] = tol
    calls = []

    def f(v):
        if slow and not S.sym:
            # of the monotone functions, one that is flat around its root
            r = 100. * ((v - lo) / (hi - lo) - .001) ** 9
            r = r if case['mono'] == 'inc' else -r
        else:
            r = S.curve('residual', v, -1000, 1000, mono=None
                        if case['mono'] == 'any' else case['mono'])
        calls.append((v, r))
        return r
    fl, fh = f(lo), f(hi)
    calls[:] = []
    r = plat.equivalance.solve_root(x, f, **k)
    S.observe('root', r)
    S.prove('the result is inside the bounds', sand(r >= lo, r <= hi),
            (lo, r, hi))
    S.prove('a residual negative at both bounds gives the upper bound',
            simplies(sand(fl < 0, fh < 0), r == hi), (fl, fh, r))
    S.prove('a residual positive at both bounds gives the lower bound',
            simplies(sand(fl > 0, fh > 0), r == lo), (fl, fh, r))
    t = tol or 1e-6
    d = 2.02 * (t + t * r) + 1e-12
    if sor(sand(fl <= 0, fh >= 0), sand(fl >= 0, fh <= 0)):
        if case['mono'] == 'any':
            fr = f(r)
            S.prove('a residual of the other sign is within the tolerance',
                    sor([sand(v - r <= d, r - v <= d,
                              sor(sand(y <= 0, fr >= 0),
                                  sand(y >= 0, fr <= 0)))
                         for v, y in calls[:-1]] + [fr == 0]), (r, fr))
        else:
            a, b = f(r - d), f(r + d)
            if case['mono'] == 'dec':
                a, b = -a, -b
            S.prove('the root is within the tolerance',
                    sand(sor(r - d <= lo, a <= 0), sor(r + d >= hi, b >= 0)),
                    (r, a, b))
