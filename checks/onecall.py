"""G09, M01: functions that do everything in one call."""
import math

import numpy as np

from engine.checks_util import harness
from checks.solvers import ANYH, PIPES, same_results, times

ONE = ['gfunction.gFunction.from_static_params',
       'networks.Network.from_static_params',
       'borefield.Borefield.evaluate_g_function',
       'gfunction.gFunction._format_inputs',
       'gfunction.uniform_heat_extraction', 'gfunction.uniform_temperature',
       'gfunction.equal_inlet_temperature',
       'gfunction.mixed_inlet_temperature']


def mix(*x):
    """some smooth function that depends on all of its arguments"""
    s = 0.
    for i, v in enumerate(x):
        s += math.asinh(100. * v) * (1. + 0.37 * i) / (10. * len(x))
    return 1. + s * s


def respond_all(h):
    """response factors are an arbitrary function of everything they should
    depend on"""
    def factors(self, time, alpha, kind='linear'):
        seg = []
        for b in self.boreSegments:
            seg.append([h.np.reshape(h.arr(v), -1)[0] for v in (
                b.H, b.D, b.r_b, b.x, b.y, b.tilt, b.orientation)])
        extra = [h.const(float(getattr(self, n, 0.))) for n in (
            'disTol', 'tol')] + [h.const({'linear': 1.}.get(kind, 2.)), alpha]
        y = [[[h.const(0.)] + [
            h.fn('response', [t] + a + b + extra, mix) *
            (1. if i == j else 0.1) for t in time]
            for j, b in enumerate(seg)] for i, a in enumerate(seg)]
        t = h.np.hstack((h.arr([0.]), time))
        return h.interp1d(t, h.arr(y), axis=2)
    for s in ('Detailed', 'Similarities', 'Equivalent'):
        h.patch(getattr(h.gt.solvers, s), 'thermal_response_factors', factors)


def linear(h, args):
    """pipes that conserve energy and depend on all of their arguments"""
    def law(fwd, m, cp, nseg, ratios):
        u = 500. * h.fn('u', args + [h.const(1. if fwd else 2.)], mix)
        mc = abs(m * cp)
        A = mc / (mc + u)
        w = [h.frac(1, nseg)] * nseg if ratios is None else list(ratios)
        B = [(1. - A) * k for k in w]
        C = [mc * (A - 1.) * k for k in w]
        D = [[mc * b * k for b in B] for k in w]
        return A, B, C, D
    return law


def flat(h, v):
    if v is None:
        return [h.const(0.)]
    if isinstance(v, str):
        return [h.const({'parallel': 3., 'series': 5.}[v])]
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(h, x)]
    if hasattr(v, 'shape') and v.shape:
        return [x for x in v.reshape(-1)]
    return [h.const(float(v)) if isinstance(v, (bool, int, float)) else v]


def simple_pipes(h):
    """replaces pipes, fluids and resistances by simple ones that depend on
    what they are given; returns (pipe class of a name, fluid, resistances)"""
    from checks.networks import StubPipe

    class Pipe(StubPipe):
        def __init__(self, kind, b, k_s, args):
            StubPipe.__init__(self, h, linear(h, [h.const(kind)] + flat(
                h, args)))
            self.b, self.k_s, self._Rd = b, k_s, h.arr([[1.]])
            self.nInlets = self.nOutlets = 1

    class SingleUTube(Pipe):
        def __init__(self, pos, r_in, r_out, borehole, k_s, k_g, R_fp, J=2,
                     reversible_flow=True):
            Pipe.__init__(self, 1., borehole, k_s, [
                pos, r_in, r_out, k_s, k_g, R_fp, J, reversible_flow])

    class MultipleUTube(Pipe):
        def __init__(self, pos, r_in, r_out, borehole, k_s, k_g, R_fp, nPipes,
                     config='parallel', J=2, reversible_flow=True):
            Pipe.__init__(self, 2., borehole, k_s, [
                pos, r_in, r_out, k_s, k_g, R_fp, nPipes, config, J,
                reversible_flow])

    class Coaxial(Pipe):
        def __init__(self, pos, r_in, r_out, borehole, k_s, k_g, R_ff, R_fp,
                     J=2, reversible_flow=True):
            Pipe.__init__(self, 3., borehole, k_s, [
                pos, r_in, r_out, k_s, k_g, R_ff, R_fp, J, reversible_flow])

    class Fluid:
        def __init__(self, fluid_str, percent, T=20.):
            a = [h.const(float(sum(map(ord, fluid_str.upper())))), percent, T]
            for n in ('rho', 'mu', 'k', 'cp'):
                setattr(self, n, h.fn(n, a, mix) *
                        (3000. if n == 'cp' else 1.))

    def resistance(name):
        def R(pipe_type, m_flow_borehole, r_in, r_out, k_p, epsilon, fluid):
            a = flat(h, [r_in, r_out, k_p])
            return h.fn(name, [h.const(float(pipe_type.value)),
                               m_flow_borehole, epsilon, fluid.rho, fluid.mu,
                               fluid.k, fluid.cp] + a, mix)
        return R
    new = dict(SingleUTube=SingleUTube, MultipleUTube=MultipleUTube,
               Coaxial=Coaxial, Fluid=Fluid)
    for n in ('fluid_to_pipe', 'fluid_to_fluid'):
        new[n + '_thermal_resistance'] = resistance(n)
    for mod in ('networks', 'pipes', 'media', 'gfunction'):
        for n, v in new.items():
            if hasattr(getattr(h.gt, mod), n):
                h.patch(getattr(h.gt, mod), n, v)
    return new


def coordinates(h, n):
    """parameters of n boreholes, some of them the same for all"""
    return dict(
        H=h.arr([h.real('H%d' % i, 20., 300., typ=(50., 200.))
                 for i in range(n)]),
        D=h.real('D', 0.5, 10., typ=(2., 5.)),
        r_b=h.real('r_b', 0.05, 0.1),
        x=h.arr([7. * i for i in range(n)]),
        y=h.real('y', -50., 50.))


OPT = dict(nSegments=2, segment_ratios=None)


@harness('G09', functions=ONE[:4], assumes=[ANYH, PIPES],
         bounds='any parameters, response factors, fluid properties and pipe '
         'resistances (functions of their arguments); two boreholes, one or '
         'two segments and times',
         quick=[dict(kind=k) for k in (
             'SINGLE_UTUBE', 'DOUBLE_UTUBE_SERIES', 'DOUBLE_UTUBE_PARALLEL',
             'COAXIAL_ANNULAR_IN', 'COAXIAL_ANNULAR_OUT')] +
               [dict(kind='single_utube', series=True),
                dict(kind='SINGLE_UTUBE', defaults=True)])
def static_parameters(h, kind, series=False, defaults=False):
    """gFunction.from_static_params gives what pipes and a network of these
    parameters give"""
    gt = h.gt
    respond_all(h)
    new = simple_pipes(h)
    B = coordinates(h, 2)
    m = h.real('m', 0.05, 5., typ=(0.1, 0.3)) * h.choice('s', [1., -1.])
    coax = kind.startswith('COAX')
    pos = [(h.real('px', -0.05, 0.05), h.const(0.))]
    if not coax:
        pos = pos + [(h.const(0.), h.const(0.04))]

    def pair(name, lo, hi):
        v = h.real(name + '0', lo, hi)
        return (v, h.real(name + '1', lo, hi)) if coax else v
    r_in, r_out, k_p = (pair('r_in', 0.01, 0.02), pair('r_out', 0.02, 0.03),
                        pair('k_p', 0.1, 1.))
    k_s, k_g = h.real('k_s', 0.5, 5.), h.real('k_g', 0.5, 5.)
    pct, T = h.real('pct', 0., 50.), h.real('T', -5., 40.)
    eps = h.real('eps', 1e-6, 1e-4)
    c = [-1, 0] if series else None
    alpha = h.real('alpha', 1e-7, 1e-5)
    t = h.arr(times(h, 1, True))
    o = dict(nSegments=1, linear_threshold=h.const(0.), profiles=True)
    more = dict(fluid_temperature=T, reversible_flow=False, J=1,
                bore_connectivity=c, tilt=h.const(0.),
                orientation=h.const(0.))
    if defaults:
        more = {}
    a = gt.gfunction.gFunction.from_static_params(
        B['H'], B['D'], B['r_b'], B['x'], B['y'], alpha, time=t,
        method='detailed', m_flow_network=m, options=o,
        boundary_condition='MIFT', pipe_type_str=kind, pos=pos, r_in=r_in,
        r_out=r_out, k_s=k_s, k_g=k_g, k_p=k_p, fluid_str='MPG',
        fluid_concentration_pct=pct, epsilon=eps, **more)
    if defaults:
        T, J, rev = h.const(20.), 2, True
    else:
        J, rev = 1, False
    bs = [gt.boreholes.Borehole(B['H'][i], B['D'], B['r_b'], B['x'][i],
                                B['y']) for i in range(2)]
    fluid = new['Fluid']('MPG', pct, T)
    mb = abs(m) if series else abs(m) / 2.
    ty = gt.pipes.PipeType[kind.upper()]
    args = (ty, mb, r_in, r_out, k_p, eps, fluid)
    R_fp = new['fluid_to_pipe_thermal_resistance'](*args)
    pipes = []
    for b in bs:
        if coax:
            p = new['Coaxial'](
                pos, h.arr(list(r_in)), h.arr(list(r_out)), b, k_s, k_g,
                new['fluid_to_fluid_thermal_resistance'](*args), R_fp, J, rev)
        elif kind.startswith('DOUBLE'):
            p = new['MultipleUTube'](
                pos, r_in, r_out, b, k_s, k_g, R_fp, 2,
                'series' if 'SERIES' in kind else 'parallel', J, rev)
        else:
            p = new['SingleUTube'](pos, r_in, r_out, b, k_s, k_g, R_fp, J, rev)
        pipes.append(p)
    net = gt.networks.Network(bs, pipes, bore_connectivity=c)
    b = gt.gfunction.gFunction(
        net, alpha, time=t, method='detailed', boundary_condition='MIFT',
        m_flow_network=m, cp_f=fluid.cp, options=o)
    same_results(h, a, 1, b, 1)
    T_b = h.real('T_b', 0., 20.)
    h.eq('heat extraction of the network made in one call',
         a.network.get_network_heat_extraction_rate(
             h.const(5.), T_b, a.network.m_flow_network, a.network.cp_f, 1),
         net.get_network_heat_extraction_rate(
             h.const(5.), T_b, m, fluid.cp, 1))


@harness('G09', functions=ONE[:3], assumes=[ANYH],
         bounds='any parameters and response factors; two boreholes, two '
         'segments and times',
         quick=[dict(how=w, bc=b) for w in ('static', 'field')
                for b in ('UHTR', 'UBWT')] + [
             dict(how='static', bc='ubwt'), dict(how='field', bc=None),
             dict(how='list', bc=None), dict(how='borefield', bc=None),
             dict(how='one', bc=None)])
def fields(h, how, bc):
    """g-functions of coordinates, and of borefields, are those of the list of
    boreholes"""
    gt = h.gt
    respond_all(h)
    B = coordinates(h, 2)
    alpha = h.real('alpha', 1e-7, 1e-5)
    t = h.arr(times(h, 2, True))
    tilt = h.arr([0.2, 0.])
    ori = h.arr([0.5, 0.])
    o = dict(nSegments=1, linear_threshold=h.const(0.), profiles=True)
    if how == 'static':
        a = gt.gfunction.gFunction.from_static_params(
            B['H'], B['D'], B['r_b'], B['x'], B['y'], alpha, time=t,
            method='detailed', boundary_condition=bc, options=o, tilt=tilt,
            orientation=ori)
        out = a.gFunc
    else:
        f = gt.borefield.Borefield(B['H'], B['D'], B['r_b'], B['x'], B['y'],
                                   tilt, ori)
    if how == 'field':
        k = dict(boundary_condition=bc) if bc else {}
        out = f.evaluate_g_function(alpha, t, method='detailed', options=o,
                                    **k)
    bs = [gt.boreholes.Borehole(B['H'][i], B['D'], B['r_b'], B['x'][i],
                                B['y'], tilt[i], ori[i]) for i in range(2)]
    if how in ('list', 'borefield', 'one'):
        bs = bs[:1] if how == 'one' else bs
        out = gt.gfunction.gFunction(
            f if how == 'borefield' else bs[0] if how == 'one' else bs,
            alpha, time=t, method='detailed', options=o).gFunc
    b = gt.gfunction.gFunction(
        bs, alpha, time=t, method='detailed',
        boundary_condition=(bc or 'UBWT').upper(), options=o)
    for p in range(2):
        h.eq('g-function', out[p], b.gFunc[p], tol=1e-6)


@harness('G09', functions=ONE[4:], assumes=[ANYH, PIPES],
         bounds='any lengths, flow rates and response factors; two boreholes, '
         'one or two segments, one or two times',
         quick=[dict(name=n, sim=s) for n in (
             'uniform_heat_extraction', 'uniform_temperature',
             'equal_inlet_temperature', 'mixed_inlet_temperature')
             for s in (True, False)] + [
             dict(name='mixed_inlet_temperature', sim=False, known=True)])
def deprecated(h, name, sim, known=False):
    """deprecated functions give what gFunction gives"""
    gt = h.gt
    respond_all(h)
    bs = [gt.boreholes.Borehole(
        h.real('H%d' % i, 20., 300., typ=(50., 200.)), 4., 0.075, 7. * i, 0.)
        for i in range(2)]
    alpha = h.real('alpha', 1e-7, 1e-5)
    nt = 2 if name == 'uniform_heat_extraction' else 1
    t = h.arr(times(h, nt, True))
    o = dict(disTol=0.05, tol=1e-5)
    f = getattr(gt.gfunction, name)
    kw = dict(use_similarities=sim, **o)
    m = h.real('m', 0.05, 5., typ=(0.1, 0.3))
    cp = h.real('cp', 1000., 5000., typ=(3000., 4500.))
    more = {}
    if name == 'uniform_heat_extraction':
        bc = 'UHTR'
        o['nSegments'] = 1
    else:
        bc = 'UBWT' if name == 'uniform_temperature' else 'MIFT'
        o.update(nSegments=2 if bc == 'UBWT' else 1, kind='quadratic')
        if bc == 'UBWT':
            def ratios(n, **k):
                return h.arr([h.frac(1, 4), h.frac(3, 4)])
            o['segment_ratios'] = ratios
            kw['segment_ratios'] = ratios
        kw.update(kind='quadratic', nSegments=o['nSegments'])
    obj = bs
    if bc == 'MIFT':
        from checks.networks import StubPipe
        pipes = []
        for i, b in enumerate(bs):
            p = StubPipe(h, linear(h, [h.const(float(i))]))
            p.b, p.k_s = b, h.real('k_s', 0.5, 5.)
            p.nInlets = p.nOutlets = 1
            pipes.append(p)
        c = [-1, 0] if name.startswith('mixed') else None
        obj = gt.networks.Network(bs, pipes, bore_connectivity=c)
        if known:
            obj.m_flow_network, obj.cp_f = 2. * m, 0.5 * cp
        more = dict(m_flow_network=m, cp_f=cp)
    if name == 'equal_inlet_temperature':
        out = f(bs, pipes, m, cp, t, alpha, **kw)
        more['m_flow_network'] = 2. * m
    elif name == 'mixed_inlet_temperature':
        out = f(obj, m, cp, t, alpha, **kw)
    else:
        out = f(bs, t, alpha, **kw)
    o.setdefault('nSegments', 1)
    g = gt.gfunction.gFunction(
        obj, alpha, time=t, method='similarities' if sim else 'detailed',
        boundary_condition=bc, options=o, **more)
    for p in range(nt):
        h.eq('g-function', out[p], g.gFunc[p], tol=1e-6)


@harness('G09', functions=ONE[3:4], assumes=[ANYH, PIPES],
         bounds='flow rates and heat capacities of the network given as any '
         'kind of number, or as a list or array',
         quick=[dict(how=w) for w in ('float', 'float64', 'float32', 'int',
                                      'int64', 'array')])
def numbers(h, how):
    """the flow rate and heat capacity of a network are used whatever their
    type; the boundary condition of a network is 'MIFT' by default"""
    gt = h.gt
    respond_all(h)
    from checks.networks import StubPipe
    bs = [gt.boreholes.Borehole(
        h.real('H%d' % i, 20., 300., typ=(50., 200.)), 4., 0.075, 7. * i, 0.)
        for i in range(2)]
    pipes = []
    for i, b in enumerate(bs):
        p = StubPipe(h, linear(h, [h.const(float(i))]))
        p.b, p.k_s = b, h.real('k_s', 0.5, 5.)
        p.nInlets = p.nOutlets = 1
        pipes.append(p)
    ty = {'float': float, 'float64': np.float64, 'float32': np.float32,
          'int': int, 'int64': np.int64,
          'array': lambda x: np.array([x, x])}[how]
    one = gt.networks.Network(
        bs, pipes, m_flow_network=ty(2.),
        cp_f=4000. if how == 'array' else ty(4000.))
    two = gt.networks.Network(bs, pipes)
    t = h.arr(times(h, 1, True))
    o = dict(nSegments=1, linear_threshold=h.const(0.), profiles=True)
    k = dict(time=t, method='detailed', boundary_condition='MIFT', options=o)
    m = 4. if how == 'array' else 2.
    a = gt.gfunction.gFunction(one, 1e-6, time=t, method='detailed', options=o)
    b = gt.gfunction.gFunction(two, 1e-6, m_flow_network=m, cp_f=4000., **k)
    same_results(h, a, 1, b, 1)


MIXTURES = {'Water': None, 'MPG': 'PropyleneGlycol', 'PropyleneGlycol':
            'PropyleneGlycol', 'MEG': 'EthyleneGlycol', 'EthyleneGlycol':
            'EthyleneGlycol', 'MMA': 'MethylAlcohol', 'MethylAlcohol':
            'MethylAlcohol', 'MEA': 'EthylAlcohol', 'EthylAlcohol':
            'EthylAlcohol'}


@harness('M01', functions=['media.Fluid'], bounds='any concentration, '
         'temperature, and property of the mixture as a function of both; '
         'all names of mixtures, in lower, upper or mixed case',
         assumes=['properties of mixtures are those of the package scp'],
         quick=[dict(name=n) for n in list(MIXTURES) + ['Oil']])
def fluids(h, name):
    """properties are those of the mixture at the given concentration and
    temperature, and consistent with each other"""
    gm = h.gt.media

    def mixture(kind):
        code = h.const(float(sum(map(ord, kind))))

        class Mixture:
            fluid_name = kind

            def __init__(self, x=h.const(0.)):
                self.x = x

            def _get(self, what, T):
                return h.fn(what, [code, self.x, T], mix)

            def density(self, T):
                return self._get('density', T)

            def viscosity(self, T):
                return self._get('viscosity', T)

            def specific_heat(self, T):
                return self._get('specific_heat', T)

            def conductivity(self, T):
                return self._get('conductivity', T)

            def prandtl(self, T):
                return self.specific_heat(T) * self.viscosity(T) / \
                    self.conductivity(T)
        return Mixture
    cls = {}
    for n in ('Water', 'PropyleneGlycol', 'EthyleneGlycol', 'MethylAlcohol',
              'EthylAlcohol'):
        cls[n] = mixture(n)
        h.patch(gm, n, cls[n])
    pct = h.real('pct', 0., 60.)
    T = h.real('T', -10., 60.)
    case = h.choice('case', ['', 'upper', 'lower'])
    text = getattr(name, case)() if case else name
    if name == 'Oil':
        h.raises('no such mixture', ValueError, lambda: gm.Fluid(text, pct, T))
        return
    default = h.flag('default temperature')
    if default:
        T = h.const(20.)
    f = gm.Fluid(text, pct) if default else gm.Fluid(text, pct, T)
    ref = cls[MIXTURES[name]](pct / 100.) if MIXTURES[name] else \
        cls['Water']()
    for label, a, b in (
            ('density', f.rho, ref.density(T)),
            ('viscosity', f.mu, ref.viscosity(T)),
            ('heat capacity', f.cp, ref.specific_heat(T)),
            ('conductivity', f.k, ref.conductivity(T)),
            ('kinematic viscosity', f.nu * f.rho, f.mu),
            ('volumetric heat capacity', f.rhoCp, f.rho * f.cp),
            ('Prandtl number', f.Pr, f.mu * f.cp / f.k)):
        h.eq(label, a, b)
