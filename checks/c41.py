"""C41 / what an exchanger is built from."""
from checks.env import *
import math

BOUNDS = ('exchangers of 1 to 12 boreholes; flow, density, conductivity, '
          'resistance free; load series of 5 hours (exchanger) and of a year '
          'with 4 free hours (hybrid load), common and leap years')
ASSUMPTIONS = ['borehole models, short-time model and equivalent are '
               'recorders; the two-day simulation is stood in for by a simple '
               'response where the hybrid load is built']


def cases(tier):
    cs = [{'id': 'ghe-%d' % n, 'k': 'ghe', 'n': n}
          for n in ((1, 3, 12) if tier == 'quick' else (1, 2, 3, 7, 12, 40))]
    for y in (2019, 2020):
        cs.append({'id': 'loads-%d' % y, 'k': 'loads', 'y': y})
    cs.append({'id': 'hybrid', 'k': 'hybrid'})
    cs.append({'id': 'length', 'k': 'length'})
    return cs


def stand_ins(S, dt, plat):
    rec = types.SimpleNamespace(bhe=[], eq=[], rn=[], hl=[])

    class BHE:
        def __init__(self, m_flow_borehole, fluid, borehole, pipe, grout,
                     soil):
            self.m_flow_borehole = m_flow_borehole
            self.fluid, self.b, self.pipe = fluid, borehole, pipe
            self.grout, self.soil = grout, soil
            rec.bhe.append(self)

    class RN:
        def __init__(self, bhe):
            self.bhe, self.calls = bhe, []
            self.t_s, self.g_sts = 1e9, object()
            rec.rn.append(self)

        def calc_sts_g_functions(self, bhe, *a, **k):
            self.calls.append(bhe)

    class Eq:
        def __init__(self, of):
            self.of, self.soil = of, of.soil
    rec.BHE = BHE

    def equivalent(b):
        rec.eq.append(Eq(b))
        return rec.eq[-1]
    S.patch(plat.equivalance, 'compute_equivalent', equivalent)
    S.patch(plat.radial_numerical_borehole, 'RadialNumericalBH', RN)
    real = plat.ground_loads.HybridLoad
    real_init = real.__init__

    class HL(real):
        def __init__(self, *a, **k):
            self.p = bind(real_init, (self,) + a, k)
            rec.hl.append(self)
    S.patch(plat.ground_loads, 'HybridLoad', HL)
    return rec


def ghe(S, case, dt, plat, gt):
    n = case['n']
    V, rho = S.real('V_flow', 0.001, 50), S.real('rho', 500, 1500)
    m = media(S, dt, plat, gt, rho=rho)
    sp = plat.media.SimulationParameters(1, 240, 35., 5., 135., 60.)
    q = S.reals('q', 5, -1e5, 1e5)
    rec = stand_ins(S, dt, plat)
    G = types.SimpleNamespace(bore_locations=[(5. * i, 0.) for i in range(n)],
                              log_time=[-8., 3.])
    loads = list(q)
    x = dt.ground_heat_exchangers.GHE(
        V, 5., rec.BHE, m.fluid, m.borehole, m.pipe, m.grout, m.soil, G, sp,
        loads)
    S.prove('an exchanger of the kind asked for',
            isinstance(x.bhe, rec.BHE))
    S.prove('with the materials given', x.bhe.fluid is m.fluid and
            x.bhe.b is m.borehole and x.bhe.pipe is m.pipe and
            x.bhe.grout is m.grout and x.bhe.soil is m.soil)
    S.prove('with its share of the flow',
            abs(x.bhe.m_flow_borehole * n * 1000. - V * rho) <= 1e-6)
    S.prove('its equivalent is that of the exchanger',
            x.bhe_eq.of is x.bhe)
    S.prove('the short-time response is that of the equivalent',
            x.radial_numerical.bhe is x.bhe_eq and
            x.radial_numerical.calls[-1:] == [x.bhe_eq])
    S.prove('one hybrid load', len(rec.hl) == 1 and
            x.hybrid_load is rec.hl[0])
    p = x.hybrid_load.p
    S.prove('the hybrid load is that of the equivalent',
            p['bhe'] is x.bhe_eq and
            p['radial_numerical'] is x.radial_numerical and
            p['sim_params'] is sp)
    rej, ext = p['hourly_rejection_loads'], p['hourly_extraction_loads']
    S.prove('a load for every hour', len(rej) == 5 and len(ext) == 5)
    for r, e, v in zip(rej, ext, q):
        S.prove('extraction is the positive part in kW',
                abs(e * 1000. - smax(v, 0.)) <= 1e-6, (e, v))
        S.prove('rejection is the negative part in kW',
                abs(r * 1000. - smax(-v, 0.)) <= 1e-6, (r, v))
    S.prove('the loads are kept', len(x.hourly_extraction_ground_loads) == 5)
    S.prove('the loads are kept', sand(
        [abs(a - b) <= 1e-12 for a, b in
         zip(x.hourly_extraction_ground_loads, q)]))
    S.prove('limits, spacing and field are kept', x.sim_params is sp and
            x.B_spacing == 5. and x.GFunction is G)
    S.prove('nothing is simulated yet', len(x.HPEFT) == 0)


def days_of(y):
    return [31, 29 if y % 4 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30,
            31]


def year_of(S, y, tag=''):
    """Loads of a year: a few free hours in three months, none elsewhere."""
    d = days_of(y)
    h = [0.] * (24 * sum(d))
    where = {}
    for m, day, hr in ((0, 9, 5), (1, d[1] - 1, 23), (2, 0, 0), (11, 30, 7)):
        i = 24 * sum(d[:m]) + 24 * day + hr
        h[i] = S.real('%sq%d' % (tag, m), 1, 100)
        where.setdefault(m, []).append((day + 1, h[i]))
    return h, d, where


def linear(S, cls):
    def sim(hour_time, q, g_sts, Rb, two_pi_k, ts):
        # a response to the peak load, and a lower one to the nominal load
        v = [scalar(x) for x in q[1:]]
        if all(x is v[0] or not is_sym(x) and x == v[0] for x in v):
            return [0] + [1. * j for j in range(1, 49)]
        return [0] + [6.5 * (j > 24) for j in range(1, 49)]
    S.patch(cls, 'simulate_hourly', staticmethod(sim))


def judge(S, L, d, where):
    for m in range(12):
        own = where.get(m, [])
        tot = own[0][1] if own else 0.
        S.prove('the total of every month',
                abs(scalar(L.monthly_total[m + 1]) - tot) <= 1e-9, (m,))
        S.prove('the average of every month',
                abs(scalar(L.monthly_average[m + 1]) * 24 * d[m] - tot)
                <= 1e-6, (m,))
        S.prove('the peak of every month',
                abs(scalar(L.monthly_peak[m + 1]) - tot) <= 1e-9, (m,))
        S.prove('the day of every peak', L.monthly_peak_day[m + 1] ==
                (own[0][0] if own else 0), (m, L.monthly_peak_day[m + 1]))
        t = scalar(L.monthly_peak_duration[m + 1])
        S.prove('the duration of every peak', abs(t - 6.5) <= 1e-9
                if own else t <= 1e-3, (m, t))
    S.prove('two days about every peak',
            len(L.monthly_two_day_hourly_peak) == 13)


def loads(S, case, dt, plat, gt):
    cls = plat.ground_loads.Loads
    linear(S, cls)
    h, d, where = year_of(S, case['y'])
    L = cls(list(h), None, 1e9, 12., S.real('Rb', 0.01, 1), year=case['y'])
    judge(S, L, d, where)
    S.prove('the hours are kept', len(L.hourly) == len(h))
    # the other kind of year is refused
    for other in (2019, 2020):
        if other == case['y']:
            continue
        try:
            cls(list(h), None, 1e9, 12., 0.1, year=other)
        except Exception:
            S.prove('a year of another length is refused', True)
        else:
            S.fail('a year of another length is refused', other)


def length(S, case, dt, plat, gt):
    cls = plat.ground_loads.Loads
    linear(S, cls)
    n = 8760 + S.choice('extra', [-8760, -1, 1, 24, -24, 8760, -8759])
    try:
        cls([1.] * n, None, 1e9, 12., 0.1)
    except Exception:
        S.prove('a series that is no year is refused', True)
        return
    S.fail('a series that is no year is refused', n)


def hybrid(S, case, dt, plat, gt):
    gl = plat.ground_loads
    linear(S, gl.Loads)
    k, Rb = S.real('k_s', 0.5, 6), S.real('Rb', 0.01, 1)
    made = []
    real = gl.Loads.__init__

    def init(self, *a, **kw):
        p = bind(real, (self,) + a, kw)
        made.append(p)
        real(self, *a, **kw)
    S.patch(gl.Loads, '__init__', init)
    rej, d, w1 = year_of(S, 2019, 'r')
    ext = [0.] * 8760
    ext[24 * 40 + 3] = S.real('e1', 1, 100)
    w2 = {1: [(10, ext[24 * 40 + 3])]}
    asked = []

    def Rb_of(*a, **kw):
        asked.append(a)
        return Rb
    bhe = types.SimpleNamespace(soil=types.SimpleNamespace(k=k),
                                compute_effective_borehole_resistance=Rb_of)
    rn = types.SimpleNamespace(g_sts=object(), t_s=1.5e9)
    start = S.choice('start', [1, 7, 12])
    sp = plat.media.SimulationParameters(start, 36, 35., 5., 135., 60.)
    h = gl.HybridLoad(rej, ext, bhe, rn, sp)
    judge(S, h.rejection, d, w1)
    judge(S, h.extraction, d, w2)
    S.prove('both loads', len(made) == 2)
    for p in made:
        S.prove('the response is that of the borehole', sand(
            p['g_sts'] is rn.g_sts, p['ts'] == rn.t_s,
            abs(p['two_pi_k'] - 2 * math.pi * k) <= 1e-9,
            abs(p['Rb'] - Rb) <= 1e-12))
    hrs = [scalar(v) for v in h.hour]
    S.prove('the load starts with the start month', hrs[1] == sum(
        24 * x for x in (d * 3)[:start - 1]), (hrs[1],))
    S.prove('the load ends with the end month',
            abs(hrs[-1] - 3 * 8760) <= 1e-6, (hrs[-1],))
    S.prove('a load for every hour mark', len(h.load) == len(hrs))


def harness(S, case):
    dt, plat, gt = mods(S)
    globals()[case['k']](S, case, dt, plat, gt)
