"""C15 / splitting the hourly load."""
from checks.env import *

BOUNDS = ('series of 1 to 4 (6 thorough) hours, any load; a year with five '
          'free hours')
ASSUMPTIONS = ['the split treats every hour alike (a longer series repeats '
               'the same loop body)']


def cases(tier):
    n = 4 if tier == 'quick' else 6
    cs = [{'id': '%s-%d' % (u, k), 'u': u, 'n': k}
          for u in ('W', 'kW') for k in range(1, n + 1)]
    cs.append({'id': 'default-2', 'u': None, 'n': 2})
    cs.append({'id': 'unknown', 'u': 'MW', 'n': 1})
    cs.append({'id': 'year', 'u': 'W', 'n': 8760})
    cs.append({'id': 'hybrid', 'k': 'hybrid'})
    return cs


def harness(S, case):
    dt, plat, gt = mods(S)
    gl = plat.ground_loads
    if case.get('k') == 'hybrid':
        # each series becomes the load of its own kind
        made = []

        def loads(hourly, g_sts, ts, two_pi_k, Rb, year=2019):
            o = types.SimpleNamespace(hourly=hourly, args=(
                g_sts, ts, two_pi_k, Rb))
            made.append(o)
            return o
        S.patch(gl, 'Loads', loads)
        S.patch(gl.HybridLoad, 'process_monthly_loads', lambda self: None)
        k_s, ts, Rb = S.real('k_s', 0.2, 5), S.real('ts', 1, 1e10), \
            S.real('Rb', 0.01, 1)
        s, e = S.sint('start', 1, 12), S.sint('end', 13, 400)
        bhe = types.SimpleNamespace(
            soil=types.SimpleNamespace(k=k_s),
            compute_effective_borehole_resistance=lambda: Rb)
        rn = types.SimpleNamespace(g_sts='g', t_s=ts)
        sp = types.SimpleNamespace(start_month=s, end_month=e)
        rej = [S.real('r', 0, 10)]
        ext = [S.real('e', 0, 10)]
        h = gl.HybridLoad(rej, ext, bhe, rn, sp)
        S.prove('rejection and extraction are not mixed up', sand(
            h.rejection.hourly[0] == rej[0],
            h.extraction.hourly[0] == ext[0]))
        for o in (h.rejection, h.extraction):
            S.prove('the thermal model of the borehole is handed over', sand(
                o.args[0] == 'g', o.args[1] == ts, o.args[3] == Rb,
                abs(o.args[2] - 2 * 3.141592653589793 * k_s) <= 1e-9))
        S.prove('the simulated months are kept', sand(
            h.startmonth == s, h.endmonth == e))
        return
    if case['n'] < 100:
        q = S.reals('q', case['n'], -1e6, 1e6)
    else:
        q = [((37 * i) % 101 - 50.) * 1000. for i in range(case['n'])]
        for i in (0, 23, 4000, 8735, 8759):
            q[i] = S.real('q%d' % i, -1e6, 1e6)
    keep = list(q)
    if case['u'] == 'MW':
        try:
            gl.HybridLoad.split_heat_and_cool(q, units='MW')
        except ValueError:
            S.prove('unknown units are refused', True)
            return
        S.fail('unknown units are refused')
        return
    kw = {} if case['u'] is None else {'units': case['u']}
    rej, ext = gl.HybridLoad.split_heat_and_cool(q, **kw)
    scale = 1. if case['u'] == 'kW' else 1000.
    S.prove('one value per hour', len(rej) == len(ext) == len(q))
    rest = [i for i, v in enumerate(keep) if not is_sym(v)] \
        if case['n'] > 100 else []
    S.prove('the rest of the year is split', all(
        rej[i] == max(-keep[i] / scale, 0) and
        ext[i] == max(keep[i] / scale, 0) and q[i] == keep[i]
        for i in rest))
    for i, v in enumerate(keep):
        if rest and not is_sym(v):
            continue
        S.prove('both parts are non-negative', sand(rej[i] >= 0, ext[i] >= 0))
        S.prove('the parts add up to the load',
                abs((ext[i] - rej[i]) * scale - v) <= 1e-9 * 1e6)
        S.prove('one part is zero', sor(rej[i] == 0, ext[i] == 0))
        S.prove('extraction is positive', sand(
            simplies(v > 0, ext[i] > 0), simplies(v < 0, rej[i] > 0)))
        S.prove('the input is left alone', q[i] == v)
