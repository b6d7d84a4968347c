"""Stand-ins for the pygfunction package (outside the repository).

Only what ghedt touches exists here.  Thermal models (convection coefficients,
effective borehole resistance, g-functions) are environment: they return
whatever the running check installed in HOOKS, or raise."""
import types

from . import engine as E

HOOKS = {}
_m = None


_C = ('m_flow_pipe', 'r_in', 'mu_f', 'rho_f', 'k_f', 'cp_f', 'epsilon')
ARGS = {'h_circular': _C,
        'h_annulus': _C[:1] + ('r_a_in', 'r_a_out') + _C[2:],
        'conduction': ('r_in', 'r_out', 'k_p')}


def hook(name, default=None):
    def f(*a, **k):
        while k and len(a) < len(ARGS.get(name, ())) and \
                ARGS[name][len(a)] in k:
            a += (k.pop(ARGS[name][len(a)]),)
        h = HOOKS.get(name, default)
        if h is None:
            raise E.SymError('pygfunction %s is not modelled here' % name)
        return h(*a, **k)
    return f


class Borehole:
    def __init__(self, H, D, r_b, x, y, tilt=0., orientation=0.):
        self.H, self.D, self.r_b = H, D, r_b
        self.x, self.y = x, y
        self.tilt, self.orientation = tilt, orientation

    def __repr__(self):
        return 'Borehole(H={}, D={}, r_b={}, x={}, y={})'.format(
            self.H, self.D, self.r_b, self.x, self.y)

    def position(self):
        return (self.x, self.y)


class Fluid:
    """Plain record of fluid properties."""

    def __init__(self, *a, **k):
        self.__dict__.update(k)


class _Pipe:
    def effective_borehole_thermal_resistance(self, m_flow_borehole, cp_f):
        return hook('effective_borehole_thermal_resistance')(
            self, m_flow_borehole, cp_f)


class SingleUTube(_Pipe):
    def __init__(self, pos, r_in, r_out, borehole, k_s, k_g, R_fp, J=2,
                 reversible_flow=True):
        self.pos, self.r_in, self.r_out, self.b = pos, r_in, r_out, borehole
        self.k_s, self.k_g, self.R_fp, self.J = k_s, k_g, R_fp, J
        self.nPipes = 1

    def update_thermal_resistances(self, R_fp):
        self.R_fp = R_fp
        self.delta_of = (self.k_g, R_fp)


class MultipleUTube(_Pipe):
    def __init__(self, pos, r_in, r_out, borehole, k_s, k_g, R_fp, nPipes,
                 config='parallel', J=2, reversible_flow=True):
        self.pos, self.r_in, self.r_out, self.b = pos, r_in, r_out, borehole
        self.k_s, self.k_g, self.R_fp, self.J = k_s, k_g, R_fp, J
        self.nPipes = nPipes
        self.config = config.lower()

    def update_thermal_resistances(self, R_fp):
        self.R_fp = R_fp
        self.delta_of = (self.k_g, R_fp)


class Coaxial(_Pipe):
    def __init__(self, pos, r_in, r_out, borehole, k_s, k_g, R_ff, R_fp, J=2,
                 reversible_flow=True):
        self.pos, self.r_in, self.r_out, self.b = pos, r_in, r_out, borehole
        self.k_s, self.k_g, self.R_ff, self.R_fp = k_s, k_g, R_ff, R_fp
        self.nPipes = 1

    def update_thermal_resistances(self, R_ff, R_fp):
        self.R_ff, self.R_fp = R_ff, R_fp


def conduction(r_in, r_out, k):
    import math
    r = r_out / r_in
    lg = E.sym_log(r, True) if E.is_sym(r) else math.log(r)
    d = k * (2 * math.pi)
    return lg / d


class Network:
    def __init__(self, boreholes, pipes, bore_connectivity=None,
                 m_flow_network=None, cp_f=None, nSegments=None,
                 segment_ratios=None):
        self.b, self.p = boreholes, pipes
        self.m_flow_network, self.cp_f = m_flow_network, cp_f


def module():
    global _m
    if _m is not None:
        return _m
    m = types.ModuleType('pygfunction')
    for n in ('boreholes', 'media', 'pipes', 'gfunction', 'networks',
              'utilities'):
        setattr(m, n, types.ModuleType('pygfunction.' + n))
    m.boreholes.Borehole = Borehole
    m.media.Fluid = Fluid
    m.pipes.SingleUTube = SingleUTube
    m.pipes.MultipleUTube = MultipleUTube
    m.pipes.Coaxial = Coaxial
    m.pipes.convective_heat_transfer_coefficient_circular_pipe = \
        hook('h_circular')
    m.pipes.convective_heat_transfer_coefficient_concentric_annulus = \
        hook('h_annulus')
    m.pipes.conduction_thermal_resistance_circular_pipe = \
        hook('conduction', conduction)
    m.gfunction.gFunction = hook('gFunction')
    m.networks.Network = hook('Network', Network)
    m.utilities.segment_ratios = hook(
        'segment_ratios', lambda n, end_length_ratio=0.02: [1. / n] * n)
    m.utilities._initialize_figure = hook('figure')
    m.gfunction._initialize_figure = hook('figure')
    _m = m
    return m
