"""P01-P06: heat transfer and fluid temperatures in single boreholes.

The delta-circuit resistances of the pipes are symbolic (the evaluation of
the multipole expansion is the subject of P08): `thermal_resistances` is
replaced by a function that returns them."""
from engine.checks_util import harness

POS2 = [(-0.04, 0.0), (0.04, 0.0)]
POS4 = [(-0.04, 0.0), (0.0, -0.04), (0.04, 0.0), (0.0, 0.04)]
# eigenvectors (rounded to one digit) of a double U-tube in a 75 mm borehole
V4 = [[-10, 9, -1, 1], [9, 10, 1, 1], [1, 1, 9, 10], [-1, 1, -10, 9]]
# three U-tubes, legs at the vertices of a hexagon (zeros replaced by ones)
POS6 = [(0.045, 0.0), (0.0225, 0.039), (-0.0225, 0.039), (-0.045, 0.0),
        (-0.0225, -0.039), (0.0225, -0.039)]
V6 = [[-7, 10, -7, 1, 1, -1], [10, 1, -10, 1, 1, 1], [-7, -10, -7, 1, -1, -1],
      [-1, -1, -1, 7, -10, -7], [1, 1, 1, -10, 1, -10],
      [-1, 1, -1, 7, 10, -7]]
# the same with flow rates in ratios 1:0.5:-0.5
V6_OPP = [[-4, 10, 1, -1, 1, 1], [10, 4, 1, -1, 10, -1],
          [1, 1, 4, -10, 1, -10], [1, 1, 10, 4, -1, -1],
          [1, -1, 4, -10, -1, 10], [10, 4, -1, -1, -10, 1]]
# two U-tubes with flow rates in ratios 1:0.5 and 1:-0.5
V4_HALF = [[-1, 10, 1, 1], [10, 2, 1, 1], [1, 1, -1, 10], [1, 1, 10, 2]]
V4_OPP = [[-1, -10, 1, 1], [-1, -1, 10, 3], [1, 1, -2, 10], [10, -3, -1, 1]]
VS = {(1., 1.): (V4, [(-3.9, -3.4), (-3.1, -2.7), (3.4, 3.9), (2.7, 3.1)]),
      (1., .5): (V4_HALF, [(-6.8, -6.3), (-3.4, -3.1), (6.5, 6.9),
                           (3., 3.3)]),
      (1., -.5): (V4_OPP, [(-6.9, -6.5), (-3.3, -3.1), (6.6, 6.9),
                           (3., 3.2)]),
      (1., 1., 1.): (V6, [(3.8, 4.2), (2.9, 3.1), (2., 2.4), (-4.2, -3.8),
                          (-3.1, -2.9), (-2.4, -2.)]),
      (1., .5, -.5): (V6_OPP, [(-6.9, -6.4), (-2.9, -2.5), (2.5, 2.9),
                               (6.4, 6.9), (-6.1, -5.7), (5.7, 6.1)])}
# no heat between U-tubes: the same eigenvectors whatever the flow rates are
V_APART = [[10, 0, -1, 0], [0, 10, 0, -1], [-1, 0, 10, 0], [0, -1, 0, 10]]
L_APART = [(-3.9, -3.4), (-3.1, -2.7), (3.4, 3.9), (2.7, 3.1)]
KINDS = ['single', 'coax_in', 'coax_out', 'double_par', 'double_ser',
         'indep']
TRIPLE = ['triple_par', 'triple_ser', 'indep3']


def n_utubes(kind):
    return 3 if kind in TRIPLE else 2 if kind in KINDS[3:] else 1


def borehole(h, H, tilt=0.):
    return h.gt.boreholes.Borehole(H, 4.0, 0.075, 1.0, 2.0, tilt=tilt,
                                   orientation=0.3)


def delta_circuit(h, kind, m_ratio=None, name='', install=True):
    """symbolic delta-circuit resistances (legs in the order of POS2 / POS4)"""
    if kind == 'single':
        R1 = h.real(name + 'R_00', 0.02, 1., typ=(0.05, 0.3))
        R2 = h.real(name + 'R_11', 0.02, 1., typ=(0.05, 0.3))
        R12 = h.real(name + 'R_01', 0.05, 3., typ=(0.1, 1.))
        Rd = [[R1, R12], [R12, R2]]
    elif kind.startswith('coax'):
        R1 = h.real(name + 'R_fg', 0.02, 1., typ=(0.05, 0.3))
        Rd = [[R1]]
    else:
        apart = m_ratio == 'apart'
        if apart or not m_ratio:
            m_ratio = (1.,) * n_utubes(kind)
        n = 2 * len(m_ratio)
        V, Lt = (V_APART, L_APART) if apart else VS[tuple(m_ratio)]
        L = [h.real('%sL_%d' % (name, k), None, None, typ=Lt[k])
             for k in range(n)]
        Vi = _inv([[h.frac(v) for v in r] for r in V], h)
        s = list(m_ratio) + [-v for v in m_ratio]
        A = [[sum((V[i][k] * L[k] * Vi[k][j] for k in range(n)),
                  h.const(0.)) for j in range(n)] for i in range(n)]
        Rd = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if i == j:
                    a = -sum((A[i][k] for k in range(n)), h.const(0.))
                else:
                    a = A[i][j]
                if apart and (i - j) % 2:
                    Rd[i][j] = h.inf
                    continue
                h.assume(a != 0)
                Rd[i][j] = 1. / (a * s[i])
        m_ratio = 'apart' if apart else m_ratio
    if install:
        install_circuits(h, kind, {0.1: Rd}, m_ratio)
    return Rd


def swap(n):
    """inlet and outlet legs of n U-tubes exchanged"""
    return list(range(n, 2 * n)) + list(range(n))


def swap_ser(n):
    """the same, and the order of the U-tubes reversed"""
    return list(range(2 * n))[::-1]


def install_circuits(h, kind, by_R_fp, m_ratio=None):
    """thermal_resistances looks the legs up by position and the circuit by
    the fluid-to-pipe resistance it is given"""
    ref = {1: [(0., 0.)], 2: POS2, 4: POS4, 6: POS6}

    def tr(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
        Rd = by_R_fp[round(float_(R_fp), 6)]
        ix = [ref[len(Rd)].index((float_(x), float_(y))) for x, y in pos]
        M = h.arr([[Rd[i][j] for j in ix] for i in ix])
        return M, M
    h.patch(h.gt.pipes, 'thermal_resistances', tr)
    n = n_utubes(kind)
    if n > 1:
        V = V_APART if m_ratio == 'apart' else \
            VS[tuple(m_ratio or (1.,) * n)][0]
        h.eigvecs(V, [V[i] for i in swap(n)], [V[i] for i in swap_ser(n)])


def _inv(M, h):
    n = len(M)
    M = [list(r) + [h.frac(1 if i == j else 0) for j in range(n)]
         for i, r in enumerate(M)]
    for k in range(n):
        p = next(i for i in range(k, n) if abs(float_(M[i][k])) > 1e-9)
        M[k], M[p] = M[p], M[k]
        M[k] = [x / M[k][k] for x in M[k]]
        for i in range(n):
            if i != k:
                M[i] = [x - M[i][k] * y for x, y in zip(M[i], M[k])]
    return [r[n:] for r in M]


def float_(x):
    try:
        return float(x)
    except TypeError:
        return float(x.r.const_value())


def make_pipe(h, kind, b, reversible=True, pos=None, R_ff=None):
    gp = h.gt.pipes
    if kind == 'single':
        return gp.SingleUTube(pos or list(POS2), 0.013, 0.0167, b, 2.0, 1.0,
                              0.1, J=2, reversible_flow=reversible)
    if kind.startswith('coax'):
        big, small = (0.05, 0.06), (0.02, 0.025)
        r = [big, small] if kind == 'coax_in' else [small, big]
        if R_ff is None:
            R_ff = h.real('R_ff', 0.02, 1., typ=(0.05, 0.5))
        return gp.Coaxial((0., 0.), h.arr([r[0][0], r[1][0]]),
                          h.arr([r[0][1], r[1][1]]), b, 2.0, 1.0, R_ff, 0.1,
                          J=2, reversible_flow=reversible)
    n = n_utubes(kind)
    pos = pos or list(POS4 if n == 2 else POS6)
    if kind.startswith('indep'):
        return gp.IndependentMultipleUTube(
            pos, 0.013, 0.0167, b, 2.0, 1.0, 0.1, n, J=2,
            reversible_flow=reversible)
    return gp.MultipleUTube(
        pos, 0.013, 0.0167, b, 2.0, 1.0, 0.1, n,
        config='parallel' if kind.endswith('par') else 'series', J=2,
        reversible_flow=reversible)


def coax_circuit(h, kind, Rd):
    """delta-circuit of a coaxial pipe: only the outer pipe sees the wall"""
    R_ff = h.real('R_ff', 0.02, 1., typ=(0.05, 0.5))
    inf = h.inf
    if kind == 'coax_in':       # element 0 (inlet) is the annulus
        return [[Rd[0][0], R_ff], [R_ff, inf]]
    return [[inf, R_ff], [R_ff, Rd[0][0]]]


def ratios(h, n, sym):
    if not sym:
        return None
    r = [h.real('ratio_%d' % i, 0.05, 0.9, typ=(0.1, 0.8 / n))
         for i in range(n - 1)]
    last = 1. - sum(r, h.const(0.))
    h.assume(last > 0.01)
    return h.arr(r + [last])


# flow rates and heat capacities of independent U-tubes relative to each other
UNEQUAL = {'m': ((1., .5), (1., 1.)), 'cp': ((1., 1.), (1., .5)),
           'opposite': ((1., -.5), (1., 1.)),
           'three': ((1., .5, -.5), (1., 1., 1.))}


def setup(h, kind, nseg, sym_ratios, sign, reversible, name='', two=''):
    ones = (1.,) * n_utubes(kind)
    mr, cr = UNEQUAL.get(two, (ones, ones))
    m_ratio = tuple(a * b for a, b in zip(mr, cr))
    if two.startswith('apart'):
        m_ratio = 'apart'
    H = h.real('H', 20., 400., typ=(80., 200.))
    b = borehole(h, H)
    Rd = delta_circuit(h, kind, m_ratio)
    pipe = make_pipe(h, kind, b, reversible)
    if kind.startswith('coax'):
        Rd = coax_circuit(h, kind, Rd)
    m = h.real('m', 0.01, 10., typ=(0.15, 1.)) * sign
    cp = h.real('cp', 1000., 5000., typ=(3000., 4500.))
    sr = ratios(h, nseg, sym_ratios)
    if two.startswith('apart'):
        m2 = h.real('m2', 0.01, 10., typ=(0.15, 1.))
        m = h.arr([m, -m2 if two == 'apart-' else m2])
    elif kind.startswith('indep'):
        m = h.arr([m * v for v in mr])
        if two == 'cp':
            cp = h.arr([cp * v for v in cr])
    return H, pipe, m, cp, sr, Rd


def directions(n, sign, two=''):
    """legs with downward and upward flow of n U-tubes"""
    sg = [sign] * n
    if two == 'opposite':
        sg = [sign, -sign]
    elif two == 'three':
        sg = [sign, sign, -sign]
    elif two.startswith('apart'):
        sg = [sign, -1 if two == 'apart-' else 1]
    ends = [(i, i + n) if v > 0 else (i + n, i) for i, v in enumerate(sg)]
    return [d for d, u in ends], [u for d, u in ends]


def capacities(h, m, cp):
    m, cp = flat(h, m), flat(h, cp)
    return [v * cp[i if len(cp) > 1 else 0] for i, v in enumerate(m)]


def unequal(twos=('m', 'cp', 'opposite', 'apart', 'apart-'), signs=(1, -1), nsegs=((2, True),)):
    return [dict(c, two=t) for t in twos for c in cfgs(
        ['indep'], nsegs, signs)]


def triple(signs=(1, -1), nsegs=((2, True),), revs=(True,)):
    """three U-tubes"""
    return cfgs(TRIPLE, nsegs, signs, revs)


def three(signs=(1, -1), nsegs=((2, True),)):
    """the same, with the flow reversed in one of them"""
    return [dict(c, two='three') for c in cfgs(['indep3'], nsegs, signs)]


def cfgs(kinds=KINDS, nsegs=((2, True),), signs=(1, -1), revs=(True,)):
    return [dict(kind=k, nseg=n, sym_ratios=s, sign=sg, reversible=rv)
            for k in kinds for n, s in nsegs for sg in signs for rv in revs]


FN = ['pipes._BasePipe.get_*', 'pipes._BasePipe.coefficients_*',
      'pipes.SingleUTube', 'pipes.Coaxial', 'pipes.MultipleUTube',
      'pipes.IndependentMultipleUTube', 'boreholes.Borehole._segment_edges']
AS = ['delta-circuit resistances are symbolic inputs (thermal_resistances '
      'replaced)', 'three U-tubes at most; for multiple U-tubes the '
      'eigenvectors of the delta-circuit are one fixed rational matrix, the '
      'eigenvalues are symbolic']


def temps(h, kind, nseg):
    Tb = h.arr(h.reals('Tb', nseg, -20., 60.))
    if kind.startswith('indep'):
        Tin = h.arr(h.reals('Tin', n_utubes(kind), -20., 60.))
    else:
        Tin = h.real('Tin', -20., 60.)
    return Tb, Tin


def flat(h, x):
    return [v for v in h.np.reshape(h.arr(x), -1)]


@harness('P01', functions=FN, assumes=AS,
         bounds='all values of length, flow rate, heat capacity, '
         'resistances, temperatures; 2 (quick) or 1-4 segments',
         quick=cfgs(revs=(True, False)) + cfgs(['single', 'double_par'],
                                               ((3, False),), (1,)) +
               unequal() + triple() + three(),
         thorough=cfgs(nsegs=((1, False), (2, True), (3, True), (4, False)),
                       revs=(True, False)) +
                  unequal(nsegs=((1, False), (3, True))) +
                  triple(nsegs=((1, False), (3, True)), revs=(True, False)))
def energy_balance(h, kind, nseg, sym_ratios, sign, reversible,
                   two=''):
    """heat extracted along the borehole = enthalpy rise of the fluid"""
    H, pipe, m, cp, sr, Rd = setup(h, kind, nseg, sym_ratios, sign,
                                   reversible, two=two)
    Tb, Tin = temps(h, kind, nseg)
    Tout = flat(h, pipe.get_outlet_temperature(Tin, Tb, m, cp,
                                               segment_ratios=sr))
    Qb = flat(h, pipe.get_borehole_heat_extraction_rate(
        Tin, Tb, m, cp, segment_ratios=sr))
    Qf = flat(h, pipe.get_fluid_heat_extraction_rate(
        Tin, Tb, m, cp, segment_ratios=sr))
    Qt = pipe.get_total_heat_extraction_rate(Tin, Tb, m, cp,
                                             segment_ratios=sr)
    mm = [abs(v) for v in capacities(h, m, cp)]
    TT = flat(h, Tin) if kind.startswith('indep') else [Tin]
    tot = h.const(0.)
    for i in range(len(mm)):
        q = mm[i] * (Tout[i] - TT[i])
        tot = tot + q
        h.eq('fluid heat = m cp (Tout - Tin)', Qf[i], q, tol=1e-6,
             scale=1e3)
    h.eq('total fluid heat', Qt, tot, tol=1e-6, scale=1e3)
    h.true('one rate per segment', len(Qb) == nseg)
    h.eq('sum of borehole heat = fluid heat', sum(Qb, h.const(0.)), tot,
         tol=1e-5, scale=1e3)


@harness('P01', functions=FN, assumes=AS, bounds='as energy_balance',
         quick=cfgs() + unequal() + triple() + three(),
         thorough=cfgs(nsegs=((1, False), (2, True), (3, True)),
                       revs=(True, False)) + unequal(nsegs=((3, True),)) +
                  triple(nsegs=((1, False), (3, True)), revs=(True, False)))
def inlet_temperature(h, kind, nseg, sym_ratios, sign, reversible,
                      two=''):
    """the inlet temperature returned for a heat extraction rate gives that
    heat extraction rate"""
    H, pipe, m, cp, sr, Rd = setup(h, kind, nseg, sym_ratios, sign,
                                   reversible, two=two)
    Tb, _ = temps(h, kind, nseg)
    if kind.startswith('indep'):
        Q = h.arr(h.reals('Q', n_utubes(kind), -5000., 5000.))
    else:
        Q = h.real('Q', -5000., 5000.)
    Tin = pipe.get_inlet_temperature(Q, Tb, m, cp, segment_ratios=sr)
    Tf = flat(h, Tin)
    Qf = flat(h, pipe.get_fluid_heat_extraction_rate(
        Tin if kind.startswith('indep') else Tf[0], Tb, m, cp, segment_ratios=sr))
    QQ = flat(h, Q)
    for i in range(len(QQ)):
        h.eq('fluid heat extraction rate', Qf[i], QQ[i], tol=1e-6, scale=1e3)


@harness('P02', functions=FN, assumes=AS,
         bounds='all values; 2 or 3 segments; profile at 3 symbolic depths',
         quick=cfgs() + unequal() + triple() + three(),
         thorough=cfgs(nsegs=((1, False), (3, True)), revs=(True, False)) +
                  unequal(nsegs=((3, True),)) +
                  triple(nsegs=((1, False), (3, True)), revs=(True, False)))
def equilibrium(h, kind, nseg, sym_ratios, sign, reversible,
                two=''):
    """fluid entering at the temperature of the wall stays there"""
    H, pipe, m, cp, sr, Rd = setup(h, kind, nseg, sym_ratios, sign,
                                   reversible, two=two)
    T = h.real('T', -20., 60.)
    Tb = h.arr([T] * nseg)
    Tin = h.arr([T] * n_utubes(kind)) if kind.startswith('indep') else T
    f = h.real('f', 0.01, 0.99)
    z = h.arr([h.const(0.), f * H, H])
    ed = pipe.b._segment_edges(nseg, segment_ratios=sr)
    h.eq('outlet temperature', pipe.get_outlet_temperature(
        Tin, Tb, m, cp, segment_ratios=sr), T, tol=1e-6)
    h.eq('fluid temperature profile', pipe.get_temperature(
        z, Tin, Tb, m, cp, segment_ratios=sr), T, tol=1e-6)
    h.eq('borehole heat extraction', pipe.get_borehole_heat_extraction_rate(
        Tin, Tb, m, cp, segment_ratios=sr), 0., tol=1e-6, scale=1e3)
    h.eq('fluid heat extraction', pipe.get_fluid_heat_extraction_rate(
        Tin, Tb, m, cp, segment_ratios=sr), 0., tol=1e-6, scale=1e3)


@harness('P02', functions=FN, assumes=AS,
         bounds='one wall temperature, 1 segment against 3 symbolic segments',
         quick=cfgs(nsegs=((3, True),)) + unequal(nsegs=((3, True),)) +
               triple(nsegs=((3, True),)))
def refinement(h, kind, nseg, sym_ratios, sign, reversible,
               two=''):
    """cutting the borehole into more segments changes nothing when they are
    at the same temperature"""
    H, pipe, m, cp, sr, Rd = setup(h, kind, nseg, sym_ratios, sign,
                                   reversible, two=two)
    T = h.real('T', -20., 60.)
    _, Tin = temps(h, kind, nseg)
    pipe1 = make_pipe(h, kind, pipe.b, reversible)
    Tb = h.arr([T] * nseg)
    h.eq('outlet temperature', flat(h, pipe.get_outlet_temperature(
        Tin, Tb, m, cp, segment_ratios=sr)), flat(
            h, pipe1.get_outlet_temperature(Tin, h.arr([T]), m, cp)),
         tol=1e-6)
    Q = flat(h, pipe.get_borehole_heat_extraction_rate(
        Tin, Tb, m, cp, segment_ratios=sr))
    h.eq('sum of heat extraction rates', sum(Q, h.const(0.)), flat(
        h, pipe1.get_borehole_heat_extraction_rate(
            Tin, h.arr([T]), m, cp))[0], tol=1e-5, scale=1e3)


@harness('P03', functions=FN, assumes=AS,
         bounds='symbolic depth inside each segment; 2 segments of symbolic '
         'length; derivative taken symbolically',
         quick=[dict(c, seg=k) for c in cfgs() + unequal() + triple() + three()
                for k in (0, 1)],
         thorough=[dict(c, seg=k) for c in cfgs(
             nsegs=((3, True),), revs=(True, False)) +
                   triple(nsegs=((3, True),)) for k in (0, 1, 2)])
def differential_equation(h, kind, nseg, sym_ratios, sign, reversible, seg,
                          two=''):
    """the temperature profile solves the energy balance of every leg"""
    H, pipe, m, cp, sr, Rd = setup(h, kind, nseg, sym_ratios, sign,
                                   reversible, two=two)
    Tb, Tin = temps(h, kind, nseg)
    f = h.real('f', 0.02, 0.98, typ=(0.1, 0.9))
    z0 = H * sum((sr[k] for k in range(seg)), h.const(0.))
    z = h.real('z', 0., 400., typ=(1., 200.), keep=True)
    h.assume(z > z0 + 0.01)
    h.assume(z < z0 + H * sr[seg] - 0.01)

    def prof(zz):
        return flat(h, pipe.get_temperature(
            h.arr([zz]), Tin, Tb, m, cp, segment_ratios=sr))
    dT, T = h.deriv(prof, z)
    n = len(T)
    mm = capacities(h, m, cp)
    if not reversible:
        mm = [abs(v) for v in mm]
    np_ = n // 2
    if kind.endswith('par'):
        mp = [mm[0] / np_] * np_
    elif kind.endswith('ser'):
        mp = [mm[0]] * np_
    else:
        mp = mm
    mp = mp + [-v for v in mp]
    for i in range(n):
        rhs = h.const(0.)
        for j in range(n):
            Tj = Tb[seg] if j == i else T[j]
            if not (isinstance(Rd[i][j], float) and Rd[i][j] == h.inf):
                rhs = rhs + (Tj - T[i]) / Rd[i][j]
        h.eq('energy balance of leg %d' % i, mp[i] * dT[i], rhs,
             tol=2e-4, scale=50.)


@harness('P03', functions=FN, assumes=AS, bounds='as energy_balance',
         quick=cfgs(revs=(True, False)) + unequal() + triple() + three(),
         thorough=cfgs(nsegs=((1, False), (3, True)), revs=(True, False)) +
                  unequal(nsegs=((3, True),)) +
                  triple(nsegs=((1, False), (3, True)), revs=(True, False)))
def boundary_conditions(h, kind, nseg, sym_ratios, sign, reversible,
                        two=''):
    """legs meet at the bottom; tops match the inlet and outlet"""
    H, pipe, m, cp, sr, Rd = setup(h, kind, nseg, sym_ratios, sign,
                                   reversible, two=two)
    Tb, Tin = temps(h, kind, nseg)
    P = pipe.get_temperature(h.arr([h.const(0.), H]), Tin, Tb, m, cp,
                             segment_ratios=sr)
    top, bot = [v for v in P[0]], [v for v in P[1]]
    n = len(top) // 2
    for i in range(n):
        h.eq('legs meet at the bottom', bot[i], bot[i + n], tol=1e-6)
    down, up = directions(n, sign if reversible else 1, two)
    rev = down[0] >= n
    Tout = flat(h, pipe.get_outlet_temperature(Tin, Tb, m, cp,
                                               segment_ratios=sr))
    if kind.endswith('par'):
        for i in down:
            h.eq('inlet', top[i], Tin, tol=1e-6)
        h.eq('outlet is the mixture', Tout[0],
             sum((top[i] for i in up), h.const(0.)) / n, tol=1e-6)
    elif kind.endswith('ser'):
        o = list(range(n))[::-1 if rev else 1]
        h.eq('inlet', top[down[o[0]]], Tin, tol=1e-6)
        for i, j in zip(o, o[1:]):
            h.eq('next U-tube is fed by the one before', top[down[j]],
                 top[up[i]], tol=1e-6)
        h.eq('outlet', Tout[0], top[up[o[-1]]], tol=1e-6)
    elif kind.startswith('indep'):
        for i in range(n):
            h.eq('inlet', top[down[i]], Tin[i], tol=1e-6)
            h.eq('outlet', Tout[i], top[up[i]], tol=1e-6)
    else:
        h.eq('inlet', top[down[0]], Tin, tol=1e-6)
        h.eq('outlet', Tout[0], top[up[0]], tol=1e-6)


@harness('P03', functions=FN, assumes=AS, bounds='three depths, in any of '
         'the orders of the configuration',
         quick=[dict(c, order=o) for o in ((2, 0, 1), (1, 1, 0))
                for c in cfgs(signs=(1,)) + triple(signs=(1,))])
def depths_in_any_order(h, kind, nseg, sym_ratios, sign, reversible, order):
    """temperatures at a list of depths are those of each depth"""
    H, pipe, m, cp, sr, Rd = setup(h, kind, nseg, sym_ratios, sign,
                                   reversible)
    Tb, Tin = temps(h, kind, nseg)
    f = h.real('f', 0.02, 0.98, typ=(0.1, 0.9))
    z = [h.const(0.), f * H, H]
    T = pipe.get_temperature(h.arr([z[i] for i in order]), Tin, Tb, m, cp,
                             segment_ratios=sr)
    h.true('one row per depth', len(T) == 3)
    for k in range(3):
        h.eq('alone', flat(h, T[k]), flat(h, pipe.get_temperature(
            z[order[k]], Tin, Tb, m, cp, segment_ratios=sr)), tol=1e-6)


@harness('P04', functions=FN + ['pipes.borehole_thermal_resistance'],
         assumes=AS, bounds='all values',
         quick=cfgs([k for k in KINDS + TRIPLE if not k.startswith('indep')],
                    ((1, False),)))
def effective_resistance(h, kind, nseg, sym_ratios, sign, reversible):
    """effective resistance = (wall - mean fluid temperature) / heat rate"""
    H, pipe, m, cp, sr, Rd = setup(h, kind, nseg, sym_ratios, sign,
                                   reversible)
    Tb, Tin = temps(h, kind, 1)
    R = pipe.effective_borehole_thermal_resistance(m, cp)
    p2 = make_pipe(h, kind, pipe.b, reversible)
    Tout = flat(h, p2.get_outlet_temperature(Tin, Tb, m, cp))[0]
    Q = flat(h, p2.get_fluid_heat_extraction_rate(Tin, Tb, m, cp))[0]
    h.eq('R x heat rate per length = temperature difference',
         R * Q / H, Tb[0] - (Tin + Tout) / 2., tol=1e-6, scale=1.)
    h.eq('deprecated function agrees',
         h.gt.pipes.borehole_thermal_resistance(p2, m, cp), R, tol=1e-8)
    inv = h.const(0.)
    for i in range(len(Rd)):
        if not (isinstance(Rd[i][i], float) and Rd[i][i] == h.inf):
            inv = inv + 1. / Rd[i][i]
    h.eq('local resistance: legs in parallel',
         pipe.local_borehole_thermal_resistance(), 1. / inv, tol=1e-8)


@harness('P05', functions=FN, assumes=AS, bounds='all values; 2 segments',
         quick=cfgs(['single', 'double_par', 'double_ser', 'indep'],
                    signs=(-1,)) + triple(signs=(-1,)))
def reversal_is_relabelling(h, kind, nseg, sym_ratios, sign, reversible):
    """reversed flow = forward flow in the borehole with its inlet and outlet
    legs exchanged"""
    H, pipe, m, cp, sr, Rd = setup(h, kind, nseg, sym_ratios, sign,
                                   reversible)
    Tb, Tin = temps(h, kind, nseg)
    if kind == 'single':
        p, mo = POS2[::-1], [1, 0]
    else:
        # in series, the last U-tube comes first
        n = n_utubes(kind)
        mo = swap_ser(n) if kind.endswith('ser') else swap(n)
        p = [(POS4 if n == 2 else POS6)[i] for i in mo]
    pipe2 = make_pipe(h, kind, pipe.b, reversible, pos=p)
    z = h.arr([h.const(0.), h.real('f', 0.01, 0.99) * H])
    for nm in ('get_outlet_temperature', 'get_borehole_heat_extraction_rate',
               'get_fluid_heat_extraction_rate'):
        a = getattr(pipe, nm)(Tin, Tb, m, cp, segment_ratios=sr)
        b = getattr(pipe2, nm)(Tin, Tb, -m, cp, segment_ratios=sr)
        h.eq(nm, a, b, tol=1e-5, scale=100.)
    a = pipe.get_temperature(z, Tin, Tb, m, cp, segment_ratios=sr)
    b = pipe2.get_temperature(z, Tin, Tb, -m, cp, segment_ratios=sr)
    for k in range(2):
        for i in range(len(mo)):
            h.eq('profile', a[k][mo[i]], b[k][i], tol=1e-5)


@harness('P05', functions=FN, assumes=AS, bounds='all values; 2 segments',
         quick=unequal(('opposite', 'apart', 'apart-')) + three())
def one_reversed(h, kind, nseg, sym_ratios, sign, reversible, two):
    """reversed flow in one of the independent U-tubes = forward flow in the
    borehole with the legs of that U-tube exchanged"""
    H, pipe, m, cp, sr, Rd = setup(h, kind, nseg, sym_ratios, sign,
                                   reversible, two=two)
    Tb, Tin = temps(h, kind, nseg)
    n = n_utubes(kind)
    dn, up = directions(n, sign, two)
    mo = dn + up
    pipe2 = make_pipe(h, kind, pipe.b, reversible,
                      pos=[(POS4 if n == 2 else POS6)[i] for i in mo])
    V = {'opposite': VS[1., -.5][0], 'three': V6_OPP}.get(two, V_APART)
    h.eigvecs(V, [V[i] for i in mo])
    m2 = h.arr([abs(v) for v in m])
    for nm in ('get_outlet_temperature', 'get_borehole_heat_extraction_rate',
               'get_fluid_heat_extraction_rate'):
        a = getattr(pipe, nm)(Tin, Tb, m, cp, segment_ratios=sr)
        b = getattr(pipe2, nm)(Tin, Tb, m2, cp, segment_ratios=sr)
        h.eq(nm, a, b, tol=1e-5, scale=100.)
    z = h.arr([h.const(0.), h.real('f', 0.01, 0.99) * H])
    a = pipe.get_temperature(z, Tin, Tb, m, cp, segment_ratios=sr)
    b = pipe2.get_temperature(z, Tin, Tb, m2, cp, segment_ratios=sr)
    for k in range(2):
        for i in range(2 * n):
            h.eq('profile', a[k][mo[i]], b[k][i], tol=1e-5)


@harness('P05', functions=FN, assumes=AS, bounds='all values; 2 segments',
         quick=cfgs(signs=(1,), revs=(False,)) +
               triple(signs=(1,), revs=(False,)))
def absolute_flow(h, kind, nseg, sym_ratios, sign, reversible):
    """without reversible flow, the sign of the flow rate is ignored"""
    H, pipe, m, cp, sr, Rd = setup(h, kind, nseg, sym_ratios, sign,
                                   reversible)
    Tb, Tin = temps(h, kind, nseg)
    pipe2 = make_pipe(h, kind, pipe.b, reversible)
    z = h.arr([h.const(0.), h.real('f', 0.01, 0.99) * H])
    for nm in ('get_outlet_temperature', 'get_borehole_heat_extraction_rate',
               'get_fluid_heat_extraction_rate'):
        a = getattr(pipe, nm)(Tin, Tb, m, cp, segment_ratios=sr)
        b = getattr(pipe2, nm)(Tin, Tb, -m, cp, segment_ratios=sr)
        h.eq(nm, a, b, tol=1e-5, scale=100.)
    h.eq('profile',
         pipe.get_temperature(z, Tin, Tb, m, cp, segment_ratios=sr),
         pipe2.get_temperature(z, Tin, Tb, -m, cp, segment_ratios=sr),
         tol=1e-5)


METHODS = ['outlet', 'temperature', 'bore_heat', 'fluid_heat', 'inlet']


def query(h, pipe, meth, T, z, p):
    m, cp, n, sr = p
    Tb = h.arr(T[1][:n])
    Tin = T[0]
    if meth == 'outlet':
        r = pipe.get_outlet_temperature(Tin, Tb, m, cp, segment_ratios=sr)
    elif meth == 'temperature':
        r = pipe.get_temperature(z, Tin, Tb, m, cp, segment_ratios=sr)
    elif meth == 'bore_heat':
        r = pipe.get_borehole_heat_extraction_rate(Tin, Tb, m, cp,
                                                   segment_ratios=sr)
    elif meth == 'fluid_heat':
        r = pipe.get_fluid_heat_extraction_rate(Tin, Tb, m, cp,
                                                segment_ratios=sr)
    elif meth == 'inlet':
        r = pipe.get_inlet_temperature(T[2], Tb, m, cp, segment_ratios=sr)
    else:
        r = pipe.effective_borehole_thermal_resistance(m, cp)
    return flat(h, r)


ASPECTS = ['sign', 'flow', 'cp', 'nseg', 'ratios', 'none', 'mutate', 'Rfp']
# of two independent U-tubes without interaction
ALONE = ['flow_last', 'flow_exchanged', 'sign_last', 'cp_last']
SHORT = ['outlet', 'temperature', 'fluid_heat']
MAIN = ['outlet', 'temperature', 'bore_heat', 'fluid_heat']


def mem_cfgs():
    out = [dict(kind=k, aspect=a, sets=[0, 1], meths=SHORT if a in (
        'ratios', 'mutate', 'none') and k != 'coax_out' else METHODS)
        for k in ('single', 'coax_out', 'double_ser', 'indep')
        for a in ASPECTS]
    out += [dict(kind='coax_out', aspect=a, sets=[0, 1, 0], meths=MAIN)
            for a in ASPECTS]
    out += [dict(kind='single', aspect=a, sets=[0, 1, 0], meths=SHORT)
            for a in ('sign', 'flow', 'Rfp')]
    out += [dict(kind='coax_out', aspect='sign', sets=[1, 0, 1, 0],
                 meths=SHORT)]
    out += [dict(kind='indep', aspect=a, sets=[0, 1], meths=METHODS)
            for a in ALONE]
    out += [dict(kind=k, aspect='ratios3', sets=[0, 1],
                 meths=['outlet', 'fluid_heat']) for k in ('single',
                                                           'coax_out')]
    return out


def mem_cfgs_thorough():
    out = [dict(kind=k, aspect=a, sets=p, meths=METHODS)
           for k in KINDS for a in ASPECTS for p in ([0, 1], [1, 0])]
    out += [dict(kind=k, aspect=a, sets=p, meths=MAIN)
            for k in KINDS for a in ASPECTS
            for p in ([0, 1, 0], [0, 0, 1], [0, 1, 1])]
    out += [dict(kind='indep', aspect=a, sets=p, meths=MAIN)
            for a in ALONE for p in ([1, 0], [0, 1, 0], [0, 0, 1])]
    out += [dict(kind=k, aspect=a, sets=p, meths=SHORT)
            for k in KINDS for a in ('sign', 'flow', 'cp', 'Rfp')
            for p in ([1, 0, 1, 0], [0, 1, 1, 0])]
    return out


@harness('P06', functions=FN, assumes=AS + ['flow capacities that differ do '
         'so by more than the cache tolerance (0.1 % here)'],
         bounds='histories of 2-4 calls over up to 5 methods and 2 parameter '
         'sets (order of the sets and methods as in the configuration); the '
         'last call is compared with a fresh pipe',
         quick=mem_cfgs(), thorough=mem_cfgs_thorough(),
         opts=dict(max_paths=30000))
def no_memory(h, kind, aspect, sets, meths):
    """results depend on the arguments of the call only"""
    H = h.real('H', 20., 400., typ=(80., 200.))
    b = borehole(h, H)
    ratio = 'apart' if aspect in ALONE else None
    Rd = delta_circuit(h, kind, ratio, install=False)
    Rd2 = delta_circuit(h, kind, name='x', install=False) \
        if aspect == 'Rfp' else Rd
    install_circuits(h, kind, {0.1: Rd, 0.2: Rd2}, ratio)
    R_ff = h.real('R_ff', 0.02, 1., typ=(0.05, 0.5)) \
        if kind.startswith('coax') else None
    m = h.real('m', 0.01, 10., typ=(0.15, 0.5))
    cp = h.real('cp', 1000., 5000., typ=(3000., 4500.))
    m2, cp2, n1, n2 = m, cp, 1, 1
    sr1 = sr2 = None
    if aspect == 'sign':
        m2 = -m
    elif aspect == 'flow':
        m2 = h.real('m2', 0.01, 10., typ=(0.6, 1.2))
        h.assume(abs(m2 - m) > 0.001 * m)
    elif aspect == 'cp':
        cp2 = h.real('cp2', 1000., 5000., typ=(2000., 2900.))
        h.assume(abs(cp2 - cp) > 0.001 * cp)
    elif aspect == 'nseg':
        n2 = 2
    elif aspect == 'none':
        n1 = n2 = 2
        r = h.real('r', 0.05, 0.45, typ=(0.1, 0.4))
        sr2 = h.arr([r, 1. - r])
    elif aspect in ('ratios', 'mutate'):
        n1 = n2 = 2
        r = h.real('r', 0.05, 0.95, typ=(0.1, 0.4))
        r2 = h.real('r2', 0.05, 0.95, typ=(0.5, 0.9))
        h.assume(abs(r2 - r) > 0.001)
        sr1 = h.arr([r, 1. - r])
        sr2 = h.arr([r2, 1. - r2])
    elif aspect == 'ratios3':       # the last one is the same
        n1 = n2 = 3
        r = h.real('r', 0.05, 0.3, typ=(0.1, 0.15))
        r2 = h.real('r2', 0.05, 0.3, typ=(0.2, 0.25))
        h.assume(abs(r2 - r) > 0.001)
        sr1 = h.arr([r, 0.6 - r, h.const(0.4)])
        sr2 = h.arr([r2, 0.6 - r2, h.const(0.4)])
    two = h.arr([1., 1.]) if kind == 'indep' else 1.
    pars = [(m * two, cp, n1, sr1), (m2 * two, cp2, n2, sr2)]
    if aspect in ALONE:
        ma = h.real('ma', 0.01, 10., typ=(0.15, 0.5))
        mb = h.real('mb', 0.01, 10., typ=(0.6, 1.2))
        cpb = h.real('cpb', 1000., 5000., typ=(2000., 2900.))
        h.assume(abs(mb - ma) > 0.001 * ma)
        h.assume(abs(cpb - cp) > 0.001 * cp)
        m1, m2, c2 = {'flow_last': ([m, ma], [m, mb], [cp, cp]),
                      'flow_exchanged': ([mb, ma], [ma, mb], [cp, cp]),
                      'sign_last': ([m, ma], [m, -ma], [cp, cp]),
                      'cp_last': ([m, ma], [m, ma], [cp, cpb])}[aspect]
        pars = [(h.arr(m1), h.arr([cp, cp]), 1, None),
                (h.arr(m2), h.arr(c2), 1, None)]
    Tb = h.reals('Tb', 3 if aspect == 'ratios3' else 2, -20., 60.)
    if kind == 'indep':
        T = (h.arr(h.reals('Tin', 2, -20., 60.)), Tb,
             h.arr(h.reals('Q', 2, -3000., 3000.)))
    else:
        T = (h.real('Tin', -20., 60.), Tb, h.real('Q', -3000., 3000.))
    z = h.arr([h.const(0.), h.real('f', 0.01, 0.99) * H])
    pipe = make_pipe(h, kind, b, R_ff=R_ff)
    buf = h.arr([0.5, 0.5])
    for k, w in enumerate(sets):
        meth = h.choice('method%d' % k, meths)
        p = pars[w]
        if aspect == 'mutate':
            buf[0] = p[3][0]
            buf[1] = p[3][1]
            p = p[:3] + (buf,)
        R = 0.1
        if aspect == 'Rfp':
            R = 0.2 if w else 0.1
            if kind.startswith('coax'):
                pipe.update_thermal_resistances(R_ff, R)
            else:
                pipe.update_thermal_resistances(R)
        got = query(h, pipe, meth, T, z, p)
        if k < len(sets) - 1:
            continue
        fresh = make_pipe(h, kind, b, R_ff=R_ff)
        if aspect == 'Rfp':
            if kind.startswith('coax'):
                fresh.update_thermal_resistances(R_ff, R)
            else:
                fresh.update_thermal_resistances(R)
        if aspect == 'mutate':
            p = p[:3] + (h.arr([buf[0], buf[1]]),)
        ref = query(h, fresh, meth, T, z, p)
        h.eq('call %d %s' % (k, meth), got, ref, tol=1e-5, scale=100.)
