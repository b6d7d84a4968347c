"""C30 / Reynolds numbers."""
from checks.env import *
import math

BOUNDS = ('mass flow 1e-4 to 20 kg/s, radii 1 mm to 0.5 m, density 500 to '
          '1500 and viscosity 1e-4 to 0.1, all arbitrary; printed reports for '
          'flows of 0.01 to 5 kg/s')
ASSUMPTIONS = ['pi as its double precision value']


def cases(tier):
    cs = [{'id': k, 'k': k} for k in ('pipe', 'annulus', 'pipe-scale',
                                      'annulus-scale', 'pipe-density',
                                      'annulus-density')]
    for b in ('single', 'double', 'double-series', 'coaxial'):
        cs.append({'id': 'report-' + b, 'k': 'report', 'b': b})
    return cs


def value(text, name):
    for line in text.splitlines():
        if line.startswith(name) and '=' in line:
            return line.split('=', 1)[1].strip().split()[0]
    return None


def harness(S, case):
    dt, plat, gt = mods(S)
    M = plat.borehole_heat_exchangers
    k = case['k']
    if k == 'report':
        return report(S, case, dt, plat, gt)
    m = S.real('m_flow', 1e-4, 20)
    mu = S.real('mu', 1e-4, 0.1)
    rho = S.real('rho', 500, 1500)
    r = S.real('r', 1e-3, 0.25)
    w = S.real('w', 1e-3, 0.25)
    eps = S.real('eps', 0, 1e-3)
    ann = k.startswith('annulus')

    def Re(m, rho, mu):
        f = types.SimpleNamespace(rho=rho, mu=mu, cp=4182., k=0.6)
        if ann:
            return scalar(M.compute_Reynolds_concentric(m, r, r + w, f))
        return scalar(M.compute_Reynolds(m, r, eps, f))
    v = Re(m, rho, mu)
    S.observe('Re', v)
    # 4 m / (mu * wetted perimeter)
    per = 2 * math.pi * (r + (r + w)) if ann else 2 * math.pi * r
    if k in ('pipe', 'annulus'):
        lhs = v * per * mu
        S.prove('four times the flow over viscosity and wetted perimeter',
                sand(lhs <= 4 * m * (1 + 1e-9), lhs >= 4 * m * (1 - 1e-9)),
                (v, m, mu, r, w))
        S.prove('positive', v > 0)
    elif k.endswith('scale'):
        q = S.real('factor', 0.01, 100)
        v2 = Re(m * q, rho, mu)
        S.prove('proportional to the flow', sand(
            v2 <= v * q * (1 + 1e-9), v2 >= v * q * (1 - 1e-9)), (v, v2, q))
    else:
        v2 = Re(m, S.real('rho2', 500, 1500), mu)
        S.prove('independent of the density', sand(
            v2 <= v * (1 + 1e-9), v2 >= v * (1 - 1e-9)), (v, v2))


def report(S, case, dt, plat, gt):
    M = plat.borehole_heat_exchangers
    b = case['b']
    m = S.real('m_flow', 0.01, 5)
    e = media(S, dt, plat, gt, n_u=1 if b == 'single' else 2)
    e.fluid.mu = S.choice('mu', [1e-3, 2.5e-3])
    e.fluid.rho = S.choice('rho', [998., 1050.])
    S.hook('h_circular', lambda *a: 1000.)
    S.hook('h_annulus', lambda *a: (900., 800.))
    S.hook('effective_borehole_thermal_resistance',
           lambda self, mf, cp: 0.1)
    if b == 'coaxial':
        # inner pipe, outer pipe: [inner radius, outer radius] each
        r_in, r_out = [0.0221, 0.025], [0.0487, 0.055]
        pipe = plat.media.Pipe((0., 0.), r_in, r_out, 0., 1e-6, [0.4, 0.4],
                               1542000.)
        x = M.CoaxialPipe(m, e.fluid, e.borehole, pipe, e.grout, e.soil)
        parts = [('Reynolds annulus', 4 * m, 2 * math.pi * (0.025 + 0.0487)),
                 ('Reynolds inner', 4 * m, 2 * math.pi * 0.0221)]
    else:
        if b == 'single':
            x = M.SingleUTube(m, e.fluid, e.borehole, e.pipe, e.grout, e.soil)
            q = m
        else:
            cfg = 'series' if b == 'double-series' else 'parallel'
            x = M.MultipleUTube(m, e.fluid, e.borehole, e.pipe, e.grout,
                                e.soil, config=cfg)
            q = m if cfg == 'series' else m / 2
        parts = [('Reynolds number', 4 * q, 2 * math.pi * e.pipe.r_in)]
    text = repr(x)
    for name, num, per in parts:
        s = value(text, name)
        if s is None:
            # worded differently: nothing to compare
            S.observe(name, 'absent')
            continue
        v = S.parse(s)
        want = num / (per * e.fluid.mu)
        S.prove('the report gives the Reynolds number of a pipe',
                abs(v - want) <= 1e-4 + want * 1e-9, (name, v, want))
