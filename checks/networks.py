"""N01-N06: networks of boreholes.

The pipes are replaced by stubs whose coefficients are symbolic: every pipe
is linear in its inlet temperature and wall temperatures, conserves energy
and is at equilibrium with an isothermal wall (P01, P02)."""
from engine.checks_util import harness

FN = ['networks.Network', 'networks._EquivalentNetwork',
      'networks.network_thermal_resistance']
AS = ['pipes are stubs with symbolic coefficients that satisfy P01 and P02 '
      '(checked on the real pipes); coefficients are a function of the '
      'direction of the flow and, for the history properties, of every '
      'argument of the call']


class Bore:
    def __init__(self, H, w=1):
        self.H = H
        self.nBoreholes = w


class StubPipe:
    """T_out = A T_in + B T_b,  Q_b = C T_in + D T_b, both symbolic.

    law(direction, m, cp, nSegments, ratios) -> (A, B, C, D)"""

    def __init__(self, h, law):
        self.h = h
        self.law = law
        self.flows = []

    def _get(self, m, cp, n, ratios):
        fwd = bool(m > 0)
        self.flows.append((m, cp, n, ratios))
        return self.law(fwd, m, cp, n, ratios)

    def coefficients_outlet_temperature(self, m, cp, nSegments,
                                        segment_ratios=None):
        A, B, C, D = self._get(m, cp, nSegments, segment_ratios)
        return self.h.arr([[A]]), self.h.arr([B])

    def coefficients_borehole_heat_extraction_rate(
            self, m, cp, nSegments, segment_ratios=None):
        A, B, C, D = self._get(m, cp, nSegments, segment_ratios)
        return self.h.arr([[c] for c in C]), self.h.arr(D)

    def coefficients_fluid_heat_extraction_rate(
            self, m, cp, nSegments, segment_ratios=None):
        A, B, C, D = self._get(m, cp, nSegments, segment_ratios)
        mc = abs(m * cp)
        return self.h.arr([[mc * (A - 1.)]]), self.h.arr(
            [[mc * b for b in B]])


def fixed_law(h, i, n):
    """one set of coefficients per direction"""
    memo = {}

    def law(fwd, m, cp, nseg, ratios):
        if fwd not in memo:
            t = 'p%d%s' % (i, 'f' if fwd else 'r')
            A = h.real(t + '_A', 0.01, 0.99, typ=(0.3, 0.7))
            B = [h.real('%s_B%d' % (t, k), 0.01, 0.99, typ=(0.05, 0.1))
                 for k in range(n - 1)]
            B.append(1. - A - sum(B, h.const(0.)))
            mc = abs(m * cp)
            C = [h.real('%s_C%d' % (t, k), -5000., 0., typ=(-900., -1.))
                 for k in range(n - 1)]
            C.append(mc * (A - 1.) - sum(C, h.const(0.)))
            D = [[h.real('%s_D%d%d' % (t, r, k), -5000., 5000.)
                  for k in range(n)] for r in range(n - 1)]
            D.append([mc * B[k] - sum((D[r][k] for r in range(n - 1)),
                                      h.const(0.)) for k in range(n)])
            memo[fwd] = (A, B, C, D)
        return memo[fwd]
    return law


def rational_law(h, i):
    """a law that depends on all of its arguments"""
    u = h.real('u%d' % i, 0.1, 10., typ=(0.5, 2.))
    v = h.real('v%d' % i, 0.1, 10., typ=(0.5, 2.))

    def law(fwd, m, cp, nseg, ratios):
        mc = abs(m * cp)
        x = (u if fwd else v) * (1000. + m * m)
        A = mc / (mc + x)
        if ratios is None:
            w = [h.frac(1, nseg)] * nseg
        else:
            w = [r for r in ratios]
        B = [(1. - A) * k for k in w]
        C = [mc * (A - 1.) * k for k in w]
        D = [[mc * b * k for b in B] for k in w]
        return A, B, C, D
    return law


def topologies(n):
    """valid connectivities of n boreholes up to nothing (all of them)"""
    import itertools
    out = []
    for c in itertools.product(range(-1, n), repeat=n):
        if valid(c):
            out.append(list(c))
    return out


def valid(c):
    n = len(c)
    pos = [x for x in c if x != -1]
    if any(x < -1 or x >= n for x in c) or len(set(pos)) != len(pos):
        return False
    for i in range(n):
        k, s = i, 0
        while k != -1:
            k = c[k]
            s += 1
            if s > n:
                return False
    return True


def setup(h, c, nseg, sign, percircuit, law=fixed_law, name=''):
    n = len(c)
    H = h.reals('H', n, 10., 400., typ=(50., 200.))
    bores = [Bore(H[i]) for i in range(n)]
    pipes = [StubPipe(h, law(h, i, nseg)) for i in range(n)]
    net = h.gt.networks.Network(bores, pipes, bore_connectivity=list(c))
    nin = list(c).count(-1)
    if percircuit:
        mi = [h.real('m%d' % k, 0.01, 10., typ=(0.1, 1.))
              for k in range(nin)]
        M = h.arr([v * sign for v in mi])
    else:
        Mt = h.real('m', 0.01, 10., typ=(0.1, 1.))
        mi = [Mt / float(nin)] * nin
        M = Mt * sign
    cp = h.real('cp', 1000., 5000., typ=(3000., 4500.))
    Tb = h.arr(h.reals('Tb', n * nseg, -20., 60.))
    Tin = h.real('Tin', -20., 60.)
    return net, pipes, M, mi, cp, Tb, Tin, H


def circuits(c):
    """boreholes of each circuit in the order of the (forward) flow"""
    n = len(c)
    nxt = {c[i]: i for i in range(n) if c[i] != -1}
    out = []
    for i in range(n):
        if c[i] == -1:
            p = [i]
            while p[-1] in nxt:
                p.append(nxt[p[-1]])
            out.append(p)
    return out


def by_hand(h, c, pipes, mi, cp, Tb, Tin, nseg, sign):
    """follow the fluid"""
    n = len(c)
    ti, to, qb = [None] * n, [None] * n, [None] * (n * nseg)
    tot, mixed, msum = h.const(0.), h.const(0.), h.const(0.)
    flow = [None] * n
    for k, p in enumerate(circuits(c)):
        T = Tin
        for i in (p if sign > 0 else p[::-1]):
            m = mi[k] * sign
            flow[i] = m
            A, B, C, D = pipes[i].law(sign > 0, m, cp, nseg, None)
            tb = [Tb[i * nseg + s] for s in range(nseg)]
            ti[i] = T
            for s in range(nseg):
                qb[i * nseg + s] = C[s] * T + sum(
                    (D[s][r] * tb[r] for r in range(nseg)), h.const(0.))
            T = A * T + sum((B[s] * tb[s] for s in range(nseg)),
                            h.const(0.))
            to[i] = T
        tot = tot + mi[k] * cp * (T - Tin)
        mixed = mixed + mi[k] * T
        msum = msum + mi[k]
    return ti, to, qb, tot, mixed / msum, flow


def net_cfgs(ns=(1, 2, 3), nseg=(1, 2)):
    out = []
    for n in ns:
        for c in topologies(n):
            for sg in (1, -1):
                for pc in ((False, True) if list(c).count(-1) > 1
                           else (False,)):
                    for s in nseg:
                        out.append(dict(c=c, nseg=s, sign=sg, percircuit=pc))
    return out


def quick_cfgs():
    out = net_cfgs((1, 2), (1, 2))
    for c in ([-1, 0, 1], [-1, -1, 0], [-1, -1, 1], [2, 0, -1], [1, 2, -1],
              [2, -1, -1], [-1, 2, -1], [-1, -1, -1], [-1, -1, 1, 0],
              [3, -1, 1, -1]):
        for sg in (1, -1):
            for pc in ((True, False) if c.count(-1) > 1 else (False,)):
                out.append(dict(c=c, nseg=1, sign=sg, percircuit=pc))
    return out


@harness('N01', functions=FN, assumes=AS,
         bounds='all connectivities of 1-2 boreholes and ten of 3-4 '
         'boreholes (quick), all of 1-4 (thorough); 1-2 segments; all '
         'temperatures, flow rates, pipe coefficients',
         quick=quick_cfgs(),
         thorough=net_cfgs((1, 2, 3), (1, 2, 3)) + net_cfgs((4,), (1,)))
def energy_balance(h, c, nseg, sign, percircuit):
    """network heat = m cp (Tout - Tin) = sum over boreholes and segments"""
    net, pipes, M, mi, cp, Tb, Tin, H = setup(h, c, nseg, sign, percircuit)
    mtot = sum(mi, h.const(0.))
    Tout = net.get_network_outlet_temperature(Tin, Tb, M, cp, nseg)
    Qt = net.get_network_heat_extraction_rate(Tin, Tb, M, cp, nseg)
    Qf = net.get_fluid_heat_extraction_rate(Tin, Tb, M, cp, nseg)
    Qb = net.get_borehole_heat_extraction_rate(Tin, Tb, M, cp, nseg)
    q = mtot * cp * (Tout - Tin)
    h.eq('network heat = m cp (Tout - Tin)', Qt, q, tol=1e-6, scale=1e3)
    h.eq('sum of fluid heat', h.np.sum(Qf), q, tol=1e-6, scale=1e3)
    h.eq('sum of borehole heat', h.np.sum(Qb), q, tol=1e-6, scale=1e3)
    ti = net.get_inlet_temperature(Tin, Tb, M, cp, nseg)
    to = net.get_outlet_temperature(Tin, Tb, M, cp, nseg)
    for k, p in enumerate(circuits(c)):
        for i in p:
            h.eq('borehole heat = m cp (Tout - Tin)', sum(
                (Qb[i * nseg + s] for s in range(nseg)), h.const(0.)),
                mi[k] * cp * (to[i] - ti[i]), tol=1e-6, scale=1e3)
            h.eq('fluid heat of a borehole', Qf[i],
                 mi[k] * cp * (to[i] - ti[i]), tol=1e-6, scale=1e3)


@harness('N01', functions=FN, assumes=AS, bounds='as energy_balance',
         quick=[x for x in quick_cfgs() if x['nseg'] == 1],
         thorough=net_cfgs((1, 2, 3), (1, 2)))
def inlet_for_heat(h, c, nseg, sign, percircuit):
    """the inlet temperature for a heat extraction rate gives that rate"""
    net, pipes, M, mi, cp, Tb, Tin, H = setup(h, c, nseg, sign, percircuit)
    Q = h.real('Q', -1e4, 1e4)
    T = net.get_network_inlet_temperature(Q, Tb, M, cp, nseg)
    h.eq('network heat', net.get_network_heat_extraction_rate(
        T, Tb, M, cp, nseg), Q, tol=1e-6, scale=1e3)


@harness('N02', functions=FN, assumes=AS, bounds='as N01',
         quick=quick_cfgs(),
         thorough=net_cfgs((1, 2, 3), (1, 2, 3)) + net_cfgs((4,), (1,)))
def follows_the_fluid(h, c, nseg, sign, percircuit):
    """inlets, outlets and mixing are those found by following the fluid"""
    net, pipes, M, mi, cp, Tb, Tin, H = setup(h, c, nseg, sign, percircuit)
    ti, to, qb, tot, mixed, flow = by_hand(h, c, pipes, mi, cp, Tb, Tin,
                                           nseg, sign)
    for p in pipes:
        p.flows = []
    h.eq('borehole inlet', net.get_inlet_temperature(
        Tin, Tb, M, cp, nseg), ti, tol=1e-6)
    h.eq('borehole outlet', net.get_outlet_temperature(
        Tin, Tb, M, cp, nseg), to, tol=1e-6)
    h.eq('borehole heat', net.get_borehole_heat_extraction_rate(
        Tin, Tb, M, cp, nseg), qb, tol=1e-6, scale=1e3)
    h.eq('mixed outlet', net.get_network_outlet_temperature(
        Tin, Tb, M, cp, nseg), mixed, tol=1e-6)
    h.eq('network heat', net.get_network_heat_extraction_rate(
        Tin, Tb, M, cp, nseg), tot, tol=1e-6, scale=1e3)
    for i, p in enumerate(pipes):
        for m, c_, ns, r in p.flows:
            h.eq('flow through the borehole', m, flow[i], tol=1e-9)
            h.eq('heat capacity', c_, cp, tol=1e-9)
            h.true('number of segments', ns == nseg)


@harness('N02', functions=FN, assumes=AS, bounds='as N01, one segment',
         quick=[x for x in quick_cfgs() if x['nseg'] == 1],
         thorough=net_cfgs((1, 2, 3, 4), (1,)))
def field_resistance(h, c, nseg, sign, percircuit):
    """mean fluid temperature minus wall temperature = -R Q / H_tot"""
    net, pipes, M, mi, cp, Tb, Tin, H = setup(h, c, nseg, sign, percircuit)
    T = h.real('T', -20., 60.)
    h.assume(Tin != T)
    n = len(c)
    Tb = h.arr([T] * n)
    R = h.gt.networks.network_thermal_resistance(net, M, cp)
    Tout = net.get_network_outlet_temperature(Tin, Tb, M, cp, 1)
    Q = net.get_network_heat_extraction_rate(Tin, Tb, M, cp, 1)
    h.eq('effective resistance', (0.5 * (Tin + Tout) - T) * sum(
        H, h.const(0.)), -R * Q, tol=1e-6, scale=1e3)


def mixed_cfgs():
    return [dict(c=c, percircuit=pc, sign=sg)
            for c in ([-1, -1], [-1, 0], [1, -1], [-1, 0, -1], [-1, -1, 0])
            for sg in (1, -1)
            for pc in ((False, True) if c.count(-1) > 1 else (False,))]


@harness('N02', functions=FN, assumes=AS,
         bounds='2-3 boreholes with 1, 2 and 3 segments of symbolic ratios',
         quick=mixed_cfgs())
def different_segments(h, c, percircuit, sign):
    """boreholes may be cut into different numbers of segments"""
    n = len(c)
    net, pipes, M, mi, cp, _, Tin, H = setup(h, c, 1, sign, percircuit,
                                             law=lambda h, i, n: rational_law(
                                                 h, i))
    ns = [k + 1 for k in range(n)]
    rat = []
    for k in ns:
        r = [h.real('r%d_%d' % (k, j), 0.05, 0.3) for j in range(k - 1)]
        rat.append(h.arr(r + [1. - sum(r, h.const(0.))]))
    Tb = h.arr(h.reals('Tb', sum(ns), -20., 60.))
    off = [sum(ns[:k]) for k in range(n)]
    Tin_, to = [None] * n, [None] * n
    qb = [None] * sum(ns)
    for k, p in enumerate(circuits(c)):
        T = Tin
        for i in (p if sign > 0 else p[::-1]):
            A, B, C, D = pipes[i].law(sign > 0, mi[k] * sign, cp, ns[i],
                                      rat[i])
            tb = [Tb[off[i] + s] for s in range(ns[i])]
            Tin_[i] = T
            for s in range(ns[i]):
                qb[off[i] + s] = C[s] * T + sum(
                    (D[s][r] * tb[r] for r in range(ns[i])), h.const(0.))
            T = A * T + sum((B[s] * tb[s] for s in range(ns[i])),
                            h.const(0.))
            to[i] = T
    kw = dict(segment_ratios=rat)
    h.eq('borehole inlet', net.get_inlet_temperature(
        Tin, Tb, M, cp, ns, **kw), Tin_, tol=1e-6)
    h.eq('borehole outlet', net.get_outlet_temperature(
        Tin, Tb, M, cp, ns, **kw), to, tol=1e-6)
    h.eq('borehole heat', net.get_borehole_heat_extraction_rate(
        Tin, Tb, M, cp, ns, **kw), qb, tol=1e-6, scale=1e3)


@harness('N03', functions=['networks.Network._verify_bore_connectivity',
                           'networks.Network._find_inlets_outlets'],
         bounds='every list of 1-3 (quick), 4 (thorough) integers between '
         '-2 and n', assumes=[],
         quick=[dict(n=n, lo=lo) for n, lo in ((1, -2), (2, -2), (3, -1))],
         thorough=[dict(n=n, lo=-2) for n in (1, 2, 3)] + [
             dict(n=4, lo=-1)], opts=dict(max_paths=30000))
def connectivity(h, n, lo):
    """exactly the connectivities that send all fluid from the inlet to the
    outlet are accepted"""
    c = [h.symint('c%d' % i, lo, n) for i in range(n)]
    bores = [Bore(100.) for i in range(n)]
    pipes = [StubPipe(h, None) for i in range(n)]
    net, exc = h.attempt((ValueError, IndexError), lambda: h.gt.networks
                         .Network(bores, pipes, bore_connectivity=c))
    # oracle
    ok = True
    for i in range(n):
        if c[i] < -1 or c[i] >= n:
            ok = False
    if ok:
        for i in range(n):
            for j in range(i):
                if c[i] == c[j] and c[i] != -1:
                    ok = False
    if ok:
        for i in range(n):
            k, s = i, 0
            while s <= n and k != -1:
                k = int(c[k])
                s += 1
            if s > n:
                ok = False
    h.true('accepted if and only if valid', (exc is None) == ok)
    if exc is None and ok:
        cc = [int(v) for v in c]
        ins = [i for i in range(n) if cc[i] == -1]
        outs = [i for i in range(n) if i not in cc]
        h.true('inlets and outlets', sorted(net._iInlets_pos) == ins and
               sorted(net._iOutlets_pos) == outs and
               sorted(net._iInlets_neg) == outs and
               sorted(net._iOutlets_neg) == ins)


@harness('N03', functions=['networks.Network._verify_bore_connectivity',
                           'networks.Network._format_inputs'],
         bounds='2 parallel boreholes, all flow rates', assumes=AS,
         quick=[dict(what=w) for w in ('length', 'signs', 'flows', 'cp')])
def bad_arguments(h, what):
    """inconsistent arguments are rejected"""
    if what == 'length':
        c = [-1, -1, -1]
        h.raises('length of the list', ValueError, lambda: h.gt.networks
                 .Network([Bore(1.)] * 2, [StubPipe(h, None)] * 2,
                          bore_connectivity=c))
        return
    net, pipes, M, mi, cp, Tb, Tin, H = setup(h, [-1, -1], 1, 1, True)
    if what == 'signs':
        h.raises('flows of both signs', ValueError, lambda:
                 net.get_outlet_temperature(Tin, Tb, h.arr(
                     [mi[0], -mi[1]]), cp, 1))
    elif what == 'flows':
        h.raises('number of flows', ValueError, lambda:
                 net.get_outlet_temperature(Tin, Tb, h.arr(
                     [mi[0], mi[1], mi[0]]), cp, 1))
    else:
        cp2 = h.real('cp2', 1000., 5000.)
        h.assume(cp2 != cp)
        h.raises('different heat capacities', ValueError, lambda:
                 net.get_outlet_temperature(Tin, Tb, M, h.arr(
                     [cp, cp2]), 1))


# -- history ---------------------------------------------------------------
QUERY = ['net_out', 'outlet', 'bore_heat', 'net_in', 'inlet', 'fluid_heat',
         'net_heat']
QSHORT = ['net_out', 'outlet', 'net_heat']


def query(h, net, meth, T, p):
    m, cp, n, sr = p
    Tin, Tb, Q = T
    nt = sum(n) if isinstance(n, list) else n * net.nBoreholes
    tb = h.arr(Tb[:nt])
    kw = dict(segment_ratios=sr)
    f = dict(net_out='get_network_outlet_temperature',
             outlet='get_outlet_temperature', inlet='get_inlet_temperature',
             bore_heat='get_borehole_heat_extraction_rate',
             fluid_heat='get_fluid_heat_extraction_rate',
             net_in='get_network_inlet_temperature',
             net_heat='get_network_heat_extraction_rate')[meth]
    r = getattr(net, f)(Q if meth == 'net_in' else Tin, tb, m, cp, n, **kw)
    return [v for v in h.np.reshape(h.arr(r), -1)]


NASP = ['sign', 'flow', 'flows', 'cp', 'percircuit', 'nseg', 'nseglist',
        'ratios', 'ratiolist', 'ratiosnone', 'mutate_m', 'mutate_ratios',
        'mutate_nseg', 'series']
# three boreholes, of which only one (the last, mostly) differs
N3 = ['flows3', 'ratios3', 'nseg3', 'ratios3first']


@harness('N04', functions=FN, assumes=AS + [
    'flow rates that differ do so by more than 0.1 %'],
         bounds='histories of 2-3 calls over up to 7 methods, 2 argument '
         'sets; 2 or 3 boreholes in parallel; last call compared with a '
         'fresh network',
         quick=[dict(aspect=a, sets=[0, 1], meths=QUERY) for a in NASP] + [
             dict(aspect=a, sets=[0, 1, 0], meths=QSHORT) for a in NASP] + [
             dict(aspect=a, sets=[0, 1], meths=QSHORT) for a in N3],
         thorough=[dict(aspect=a, sets=s, meths=QUERY) for a in NASP + N3
                   for s in ([0, 1], [1, 0], [0, 1, 0], [1, 0, 1])] + [
             dict(aspect=a, sets=[0, 1, 0, 1], meths=QSHORT) for a in NASP],
         opts=dict(max_paths=30000))
def no_memory(h, aspect, sets, meths):
    """results depend on the arguments of the call only"""
    net_of = h.gt.networks.Network
    nb = 3 if aspect in N3 else 2
    laws = [rational_law(h, i) for i in range(nb)]
    H = h.reals('H', nb, 10., 400.)

    def new():
        return net_of([Bore(x) for x in H],
                      [StubPipe(h, law) for law in laws],
                      bore_connectivity=[-1, 0] if aspect == 'series'
                      else None)
    m = h.real('m', 0.01, 10., typ=(0.15, 0.5))
    cp = h.real('cp', 1000., 5000., typ=(3000., 4500.))
    m2, cp2, n1, n2 = m, cp, 1, 1
    sr1 = sr2 = None
    if aspect in ('sign', 'series'):
        m2 = -m
    elif aspect == 'flow':
        m2 = h.real('m2', 0.01, 10., typ=(0.6, 1.2))
        h.assume(abs(m2 - m) > 0.001 * m)
    elif aspect == 'cp':
        cp2 = h.real('cp2', 1000., 5000., typ=(2000., 2900.))
        h.assume(abs(cp2 - cp) > 0.001 * cp)
    elif aspect == 'percircuit':
        m2 = h.arr([m, m])
    elif aspect == 'nseg':
        n2 = 2
    elif aspect in ('nseglist', 'mutate_nseg'):
        n1, n2 = [1, 2], [2, 1]
    elif aspect in ('mutate_m', 'flows'):
        m = h.arr(h.reals('mm', 2, 0.01, 10., typ=(0.1, 0.5)))
        m2 = h.arr(h.reals('mx', 2, 0.01, 10., typ=(0.6, 1.)))
        h.assume(abs(m2[0] - m[0]) > 0.001 * m[0])
    elif aspect == 'flows3':
        m = h.arr(h.reals('mm', 3, 0.01, 10., typ=(0.1, 0.5)))
        m2 = h.arr([m[0], m[1], h.real('mx', 0.01, 10., typ=(0.6, 1.))])
        h.assume(abs(m2[2] - m[2]) > 0.001 * m[2])
    elif aspect == 'nseg3':
        n1, n2 = [1, 2, 1], [1, 1, 2]
    else:
        n1 = n2 = 2
        r = h.real('r', 0.05, 0.45, typ=(0.1, 0.4))
        r2 = h.real('r2', 0.5, 0.95, typ=(0.55, 0.9))
        a1, a2 = h.arr([r, 1. - r]), h.arr([r2, 1. - r2])
        if aspect == 'ratios':
            sr1, sr2 = a1, a2
        elif aspect == 'ratiosnone':
            sr1 = [a1, a1]
        elif aspect == 'ratios3':
            n1 = n2 = [1, 1, 2]
            one = h.arr([h.const(1.)])
            sr1, sr2 = [one, one, a1], [one, one, a2]
        elif aspect == 'ratios3first':
            n1 = n2 = [2, 1, 1]
            one = h.arr([h.const(1.)])
            sr1, sr2 = [a1, one, one], [a2, one, one]
        else:
            sr1, sr2 = [a1, a2], [a1, a1]
    pars = [(m, cp, n1, sr1), (m2, cp2, n2, sr2)]
    T = (h.real('Tin', -20., 60.), h.reals('Tb', 4, -20., 60.),
         h.real('Q', -5000., 5000.))
    net = new()
    mbuf = h.arr([0.5, 0.5])
    rbuf = [None, None]
    nbuf = [1, 1]
    for k, w in enumerate(sets):
        meth = h.choice('method%d' % k, meths)
        p = pars[w]
        if aspect == 'mutate_m':
            mbuf[0], mbuf[1] = p[0][0], p[0][1]
            p = (mbuf,) + p[1:]
        elif aspect == 'mutate_ratios':
            rbuf[0], rbuf[1] = p[3][0], p[3][1]
            p = p[:3] + (rbuf,)
        elif aspect == 'mutate_nseg':
            nbuf[0], nbuf[1] = p[2]
            p = p[:2] + (nbuf,) + p[3:]
        got = query(h, net, meth, T, p)
        if k < len(sets) - 1:
            continue
        p = pars[w]
        h.eq('%s' % meth, got, query(h, new(), meth, T, p), tol=1e-6,
             scale=100.)


# -- reversal ----------------------------------------------------------------
@harness('N05', functions=FN, assumes=AS,
         bounds='as N01; the reversed network has the connectivity traversed '
         'backwards and boreholes with the coefficients of the reverse flow',
         quick=[dict(c=x['c'], nseg=x['nseg'], percircuit=x['percircuit'])
                for x in quick_cfgs() if x['sign'] > 0],
         thorough=[dict(c=x['c'], nseg=x['nseg'],
                        percircuit=x['percircuit'])
                   for x in net_cfgs((1, 2, 3), (1, 2)) + net_cfgs((4,), (1,))
                   if x['sign'] > 0])
def reversal(h, c, nseg, percircuit):
    """reversing the flow = reversing every connection"""
    n = len(c)
    net, pipes, M, mi, cp, Tb, Tin, H = setup(h, c, nseg, 1, percircuit)
    cc = [-1] * n
    for i in range(n):
        if c[i] != -1:
            cc[c[i]] = i
    # circuits of the reversed network, in its own order of inlets
    order = [p[-1] for p in circuits(c)]
    ins = [i for i in range(n) if cc[i] == -1]
    laws = [p.law for p in pipes]

    def flip(law):
        return lambda fwd, m, cp, ns, r: law(not fwd, m, cp, ns, r)
    net2 = h.gt.networks.Network(
        [Bore(H[i]) for i in range(n)],
        [StubPipe(h, flip(law)) for law in laws], bore_connectivity=cc)
    if percircuit:
        M2 = h.arr([mi[order.index(i)] for i in ins])
    else:
        M2 = M
    for f in ('get_network_outlet_temperature',
              'get_network_heat_extraction_rate', 'get_inlet_temperature',
              'get_outlet_temperature', 'get_fluid_heat_extraction_rate',
              'get_borehole_heat_extraction_rate'):
        h.eq(f, getattr(net, f)(Tin, Tb, -M, cp, nseg),
             getattr(net2, f)(Tin, Tb, M2, cp, nseg), tol=1e-6, scale=100.)


# -- equivalent boreholes ----------------------------------------------------
@harness('N06', functions=FN, assumes=AS,
         bounds='two groups of 1-3 identical boreholes in parallel; 1-2 '
         'segments; all values',
         quick=[dict(w=w, nseg=s, sign=sg) for w in ([2, 1], [1, 3], [3])
                for s in (1, 2) for sg in (1, -1)],
         thorough=[dict(w=w, nseg=s, sign=sg) for w in (
             [1], [4], [2, 3], [1, 2, 2], [3, 1, 1]) for s in (1, 2, 3)
             for sg in (1, -1)])
def equivalent(h, w, nseg, sign):
    """a network of equivalent boreholes = the network of all boreholes"""
    ng = len(w)
    N = sum(w)
    H = h.reals('H', ng, 10., 400.)
    laws = [fixed_law(h, g, nseg) for g in range(ng)]
    gn = h.gt.networks
    eqv = gn._EquivalentNetwork([Bore(H[g], w[g]) for g in range(ng)],
                                [StubPipe(h, law) for law in laws])
    grp = [g for g in range(ng) for _ in range(w[g])]
    full = gn.Network([Bore(H[g]) for g in grp],
                      [StubPipe(h, laws[g]) for g in grp])
    h.eq('total length', eqv.H_tot, full.H_tot)
    M = h.real('m', 0.01, 10., typ=(0.1, 1.)) * sign
    cp = h.real('cp', 1000., 5000., typ=(3000., 4500.))
    Tg = h.reals('Tb', ng * nseg, -20., 60.)
    Tb = h.arr(Tg)
    Tbf = h.arr([Tg[g * nseg + s] for g in grp for s in range(nseg)])
    Tin = h.real('Tin', -20., 60.)
    Q = h.real('Q', -1e4, 1e4)
    for f in ('get_network_outlet_temperature',
              'get_network_heat_extraction_rate'):
        h.eq(f, getattr(eqv, f)(Tin, Tb, M, cp, nseg),
             getattr(full, f)(Tin, Tbf, M, cp, nseg), tol=1e-6, scale=100.)
    f = 'get_network_inlet_temperature'
    h.eq(f, getattr(eqv, f)(Q, Tb, M, cp, nseg),
         getattr(full, f)(Q, Tbf, M, cp, nseg), tol=1e-6, scale=100.)
    for f in ('get_inlet_temperature', 'get_outlet_temperature',
              'get_fluid_heat_extraction_rate'):
        a = getattr(eqv, f)(Tin, Tb, M, cp, nseg)
        b = getattr(full, f)(Tin, Tbf, M, cp, nseg)
        for i, g in enumerate(grp):
            h.eq(f, a[g], b[i], tol=1e-6, scale=100.)
    f = 'get_borehole_heat_extraction_rate'
    a = getattr(eqv, f)(Tin, Tb, M, cp, nseg)
    b = getattr(full, f)(Tin, Tbf, M, cp, nseg)
    for i, g in enumerate(grp):
        for s in range(nseg):
            h.eq(f, a[g * nseg + s], b[i * nseg + s], tol=1e-6, scale=100.)
    if nseg == 1:
        h.eq('effective resistance',
             gn.network_thermal_resistance(eqv, M, cp),
             gn.network_thermal_resistance(full, M, cp), tol=1e-6)
