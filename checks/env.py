"""Shared parts of the harnesses: example media and environment stand-ins."""
import inspect
import types

from symx.session import (smax, smin, sabs, slog, ssqrt, sand, sor, snot,
                          simplies, scalar)
from symx.engine import is_sym


def mods(S):
    import ghedt as dt
    import ghedt.peak_load_analysis_tool as plat
    if S.sym:
        from symx import gtstub
        gt = gtstub.module()
    else:
        import pygfunction as gt
    return dt, plat, gt


def media(S, dt, plat, gt, rho=998., H=96., D=2., r_b=0.075, n_u=1):
    """Concrete, ordinary design inputs (numbers of the repository's tests)."""
    r_out, r_in, s = 26.67 / 2000., 21.6 / 2000., 32.3 / 1000.
    m = types.SimpleNamespace()
    m.fluid = types.SimpleNamespace(rho=rho, cp=4182., mu=1e-3, k=0.6)
    m.borehole = gt.boreholes.Borehole(H, D, r_b, 0., 0.)
    pos = plat.media.Pipe.place_pipes(s, r_out, n_u)
    m.pipe = plat.media.Pipe(pos, r_in, r_out, s, 1e-6, 0.4, 1542000.)
    m.grout = plat.media.Grout(1.0, 3901000.)
    m.soil = plat.media.Soil(2.0, 2343493., 18.3)
    m.loads = [0.] * 8760
    return m


def bind(fn, a, k):
    """Arguments by parameter name, however the caller passed them."""
    b = inspect.signature(fn).bind(*a, **k)
    b.apply_defaults()
    return b.arguments


def built_ghe(S, dt, plat, parts, cls=None):
    """An exchanger put together by its own constructor from stand-ins, so
    that whatever the constructor prepares is there."""
    ghx = dt.ground_heat_exchangers
    cls = cls or ghx.GHE
    p = dict(vars(parts))
    bhe = p.get('bhe') or types.SimpleNamespace()
    rn = p.get('radial_numerical') or types.SimpleNamespace()
    nothing = types.SimpleNamespace(
        **dict(vars(rn), calc_sts_g_functions=lambda *a, **k: None))
    b = getattr(bhe, 'b', None) or types.SimpleNamespace(H=96., D=2.,
                                                         r_b=0.075)
    g = p.get('GFunction') or types.SimpleNamespace(bore_locations=[(0., 0.)])
    loads = p.get('hourly_extraction_ground_loads') or [0.] * 8760

    class Hybrid:
        def __new__(cls_, *a, **k):
            return p.get('hybrid_load')

        split_heat_and_cool = staticmethod(
            lambda h, units='W': ([0.] * 8760, [0.] * 8760))
    keep = len(S._patches)
    try:
        S.patch(plat.equivalance, 'compute_equivalent', lambda x: x)
        S.patch(plat.radial_numerical_borehole, 'RadialNumericalBH',
                lambda *a, **k: nothing)
        S.patch(plat.ground_loads, 'HybridLoad', Hybrid)
        ghe = cls(p.get('V_flow_system', 1.), p.get('B_spacing', 5.),
                  lambda *a, **k: bhe,
                  types.SimpleNamespace(rho=998., cp=4182., mu=1e-3, k=.6), b,
                  getattr(bhe, 'pipe', None), getattr(bhe, 'grout', None),
                  getattr(bhe, 'soil', None), g, p.get('sim_params'), loads)
    except Exception:
        ghe = cls.__new__(cls)
    finally:
        S.unpatch(keep)
    ghe.__dict__.update(p)
    return ghe


def built_loads(plat, parts):
    """Monthly loads put together by their own constructor."""
    cls = plat.ground_loads.Loads
    p = dict(vars(parts))
    try:
        L = cls([0.] * 8760, p.get('g_sts'), p.get('ts', 1e9),
                p.get('two_pi_k', 12.), p.get('Rb', 0.1))
    except Exception:
        L = cls.__new__(cls)
    L.__dict__.update(p)
    return L


def built_hybrid(S, plat, parts=None):
    """A hybrid load put together by its own constructor."""
    gl = plat.ground_loads
    keep = len(S._patches)
    try:
        none = types.SimpleNamespace()
        S.patch(gl, 'Loads', lambda *a, **k: none)
        S.patch(gl.HybridLoad, 'process_monthly_loads', lambda self: None)
        bhe = types.SimpleNamespace(
            soil=types.SimpleNamespace(k=2.),
            compute_effective_borehole_resistance=lambda *a, **k: 0.1)
        h = gl.HybridLoad(
            [0.] * 8760, [0.] * 8760, bhe,
            types.SimpleNamespace(g_sts=None, t_s=1e9),
            plat.media.SimulationParameters(1, 12, 35., 5., 135., 60.))
    except Exception:
        h = gl.HybridLoad.__new__(gl.HybridLoad)
    finally:
        S.unpatch(keep)
    if parts is not None:
        h.__dict__.update(vars(parts))
    return h


class Fields:
    """Search environment: the thermal response of a field is an arbitrary
    function of the field and of the height."""

    def __init__(self, S, dt, plat, gt, excess, flow_log=None, size=None):
        self.S, self.dt = S, dt
        self.excess = excess            # (coords, H) -> excess temperature
        self.size = size                # (coords) -> (height)
        self.flow_log = flow_log if flow_log is not None else []
        env = self
        real_g = dt.gfunction.compute_live_g_function
        RealGHE = dt.ground_heat_exchangers.GHE

        def live(*a, **k):
            p = bind(real_g, a, k)
            g = types.SimpleNamespace()
            g.bore_locations = p['coordinates']
            g.H_values = list(p['H_values'])
            g.r_b_values = {h: r for h, r in zip(p['H_values'],
                                                 p['r_b_values'])}
            g.D_values = {h: d for h, d in zip(p['H_values'], p['D_values'])}
            g.log_time = p['log_time']
            g.B = p['B']
            g.m_flow_borehole = p['m_flow_borehole']
            env.flow_log.append(('g', p['coordinates'],
                                 p['m_flow_borehole'], p['B']))
            return g

        class FakeGHE(RealGHE):
            def __init__(self, *a, **k):
                p = bind(RealGHE.__init__, (self,) + a, k)
                self.V_flow_system = p['V_flow_system']
                self.B_spacing = p['B_spacing']
                self.GFunction = p['GFunction']
                self.nbh = float(len(self.GFunction.bore_locations))
                self.sim_params = p['sim_params']
                self.bhe_object = p['bhe_object']
                self.hourly_extraction_ground_loads = \
                    p['hourly_extraction_ground_loads']
                self.bhe = types.SimpleNamespace(
                    b=p['borehole'], fluid=p['fluid'], pipe=p['pipe'],
                    grout=p['grout'], soil=p['soil'],
                    m_flow_borehole=self.GFunction.m_flow_borehole)
                self.sized = False
                env.flow_log.append(('ghe', self.GFunction.bore_locations,
                                     self.V_flow_system, self.B_spacing))

            def compute_g_functions(self):
                sp = self.sim_params
                self.GFunction = types.SimpleNamespace(
                    **dict(self.GFunction.__dict__,
                           H_values=[sp.min_Height, sp.max_Height]))

            def simulate(self, method='hybrid'):
                H = self.bhe.b.H
                hv = self.GFunction.H_values
                S = env.S
                S.prove('the g-function covers the simulated height',
                        sand(H >= smin(hv), H <= smax(hv)), (H, hv))
                e = env.excess(self.GFunction.bore_locations, H)
                sp = self.sim_params
                # either limit may be the one that governs
                hot = env.S.fn('hot_side', (env.key(
                    self.GFunction.bore_locations), H), 0, 1)
                hi = sp.max_EFT_allowable + e
                lo = sp.min_EFT_allowable - e + 5. * hot
                if not is_sym(e) and not is_sym(hot):
                    return float(hi), float(lo)
                return hi, lo

            def size(self, method='hybrid'):
                self.bhe.b.H = env.size(self.GFunction.bore_locations)
                self.sized = True

        self.FakeGHE = FakeGHE
        S.patch(dt.gfunction, 'compute_live_g_function', live)
        S.patch(dt.ground_heat_exchangers, 'GHE', FakeGHE)

    def key(self, coords):
        k = tuple((float(x), float(y)) for x, y in coords)
        if not hasattr(self, '_keys'):
            self._keys = []
        if k not in self._keys:
            self._keys.append(k)
        return float(self._keys.index(k))


def line_field(n, B=5.):
    return [(float(i) * B, 0.) for i in range(n)]
