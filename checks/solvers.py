"""G01-G08: g-functions."""
from engine.checks_util import harness

BASE = ['solvers._base_solver._BaseSolver.solve',
        'solvers._base_solver._BaseSolver.temporal_superposition',
        'solvers._base_solver._BaseSolver.load_history_reconstruction',
        'gfunction.gFunction.__init__',
        'gfunction.gFunction.evaluate_g_function']
ANYH = 'segment-to-segment response factors are arbitrary positive numbers ' \
       '(thermal_response_factors is replaced)'
ALPHA = 1e-6


def field(h, n, dx=6.):
    B = h.gt.boreholes.Borehole
    return [B(h.real('H%d' % i, 20., 300., typ=(50., 200.)), 4., 0.075,
              dx * i, 0.) for i in range(n)]


def respond(h, resp, nseg):
    """replaces the response factors of solver Detailed: resp(i, j, k, t) is
    the temperature of segment i for segment j, at time t (k-th one)"""
    def factors(self, time, alpha, kind='linear'):
        n = self.nSources
        h.true('number of sources', n == nseg)
        nt = len(time)
        y = [[[0.] + [resp(i, j, k, time[k]) for k in range(nt)]
              for j in range(n)] for i in range(n)]
        t = h.np.hstack((h.arr([0.]), time))
        return h.interp1d(t, h.arr(y), axis=2, kind=kind)
    h.patch(h.gt.solvers.Detailed, 'thermal_response_factors', factors)


def free(h, symmetric=None):
    def resp(i, j, k, t):
        return h.real('h_%d_%d_%d' % (i, j, k), 0., 20.,
                      typ=(3. + k, 4. + k) if i == j else
                      (0.2 + k, 1. + k))
    return resp


def times(h, n, uniform, name='t'):
    dt = h.real(name + '1', 1e4, 1e9, typ=(1e5, 1e7))
    t = [dt]
    for i in range(1, n):
        t.append(t[-1] + (dt if uniform else
                          h.real('%s%d' % (name, i + 1), 1e4, 1e9,
                                 typ=(1e5, 1e7))))
    return t


def gfun(h, obj, t, bc, nseg=1, profiles=True, **k):
    o = dict(nSegments=nseg, segment_ratios=None, profiles=profiles)
    o.update(k.pop('options', {}))
    g = h.gt.gfunction.gFunction(
        obj, ALPHA, time=h.arr(t), method=k.pop('method', 'detailed'),
        boundary_condition=bc, options=o, **k)
    return g


def superposed(h, resp, i, n, Q, p):
    """temperature of segment i after p + 1 equal time steps"""
    tot = h.const(0.)
    for j in range(n):
        for k in range(p + 1):
            dq = Q[j][k] - (Q[j][k - 1] if k else 0.)
            tot = tot + dq * resp(i, j, p - k, None)
    return tot


def between(kind, a, u, b, v, x):
    """value at x of what is u at a and v at b"""
    if kind == 'linear':
        return u + (v - u) * (x - a) / (b - a)
    if x == a:
        return u
    if x == b:
        return v
    if kind == 'nearest':
        return u if x - a <= b - x else v
    return v if kind == 'next' else u


def superposed_steps(h, resp, i, n, Q, p, t, kind='linear'):
    """the same for unequal time steps, as documented by Cimmino and Bernier:
    loads before the current time step are averaged over the time steps in
    reverse order (the shortest ones, in general, come last), such that all
    responses are known; the response at the current step is interpolated"""
    zero = h.const(0.)

    def part(a, b, c, d):
        """length of what [a, b] and [c, d] have in common"""
        lo = a if a >= c else c
        hi = b if b <= d else d
        return hi - lo if hi > lo else zero

    def now(i, j, x):
        a, u = zero, zero
        for k, b in enumerate(t):
            v = resp(i, j, k, None)
            if x <= b or k == len(t) - 1:
                return between(kind, a, u, b, v, x)
            a, u = b, v
    d = [t[k] - (t[k - 1] if k else 0.) for k in range(p + 1)]
    start = [sum(d[p - m] for m in range(k)) + zero for k in range(p + 2)]
    frac = [[part(start[k], start[k + 1], t[m - 1] if m else zero, t[m]) /
             (start[k + 1] - start[k]) for m in range(p)]
            for k in range(p + 1)]
    tot = zero
    for j in range(n):
        r = [sum(frac[k][m] * Q[j][m] for m in range(p)) + zero
             for k in range(p + 1)]
        for k in range(p + 1):
            tot = tot + (r[k] - (r[k - 1] if k else 0.)) * resp(
                i, j, p - k, None)
        tot = tot + Q[j][p] * now(i, j, d[p])
    return tot


def cut(h, bs, nb, nseg, ratios):
    """(nSegments, segment_ratios, lengths of all segments)"""
    num, rat = some_ratios(h, ratios, nseg, nb)
    L = []
    for i, b in enumerate(bs):
        n = num[i] if isinstance(num, list) else num
        L += [b.H / n] * n if rat is None else \
            [x * b.H for x in (rat if not isinstance(rat, list) else rat[i])]
    return num, rat, L


@harness('G02', functions=BASE, assumes=[ANYH],
         bounds='any lengths and response factors; equal or any time steps; '
         'any segment ratios; numbers '
         'of boreholes, segments and time steps of the configuration',
         quick=[dict(nb=2, nseg=1, nt=2), dict(nb=1, nseg=2, nt=2),
                dict(nb=2, nseg=1, nt=3), dict(nb=3, nseg=1, nt=2),
                dict(nb=2, nseg=1, nt=2, equal=False),
                dict(nb=1, nseg=2, nt=2, equal=False, ratios='same'),
                dict(nb=1, nseg=1, nt=3, equal=False),
                dict(nb=2, nseg=1, nt=2, ratios='list')] +
               [dict(nb=n, nseg=1, nt=2, equal=False, kind=k)
                for k in ('next', 'previous', 'nearest') for n in (1, 2)],
         thorough=[dict(nb=b, nseg=s, nt=t) for b, s, t in
                   ((2, 1, 2), (1, 2, 2), (2, 1, 3), (3, 1, 2), (2, 2, 2),
                    (1, 3, 2), (3, 1, 3))] + [
                   dict(nb=2, nseg=1, nt=3, equal=False),
                   dict(nb=2, nseg=2, nt=2, ratios='same'),
                   dict(nb=2, nseg=2, nt=1, ratios='each'),
                   dict(nb=3, nseg=1, nt=2, equal=False)])
def uniform_temperature(h, nb, nseg, nt, equal=True, ratios=None,
                        kind='linear'):
    """UBWT: the heat extraction rates found by the solver give the same
    temperature to all segments, and a total of 1 per unit length"""
    bs = field(h, nb)
    num, rat, L = cut(h, bs, nb, nseg, ratios)
    n = len(L)
    resp = free(h)
    respond(h, resp, n)
    t = times(h, nt, equal)
    if kind in ('previous', 'nearest'):     # no response otherwise
        h.assume(t[1] > 2. * t[0])
    o = dict(segment_ratios=rat)
    if kind != 'linear':
        o['kind'] = kind
    g = gfun(h, bs, t, 'UBWT', num, options=o)
    Q, T = g.solver.Q_b, g.solver.T_b
    q = [[Q[j, k] for k in range(nt)] for j in range(n)]

    def ground(h, resp, i, n, q, p):
        if equal:
            return superposed(h, resp, i, n, q, p)
        return superposed_steps(h, resp, i, n, q, p, t, kind)
    for p in range(nt):
        tot = h.const(0.)
        for j in range(n):
            tot = tot + q[j][p] * L[j] / sum(L)
        h.eq('total heat', tot, 1.)
        h.eq('g-function', g.gFunc[p], T[p])
        for i in range(n):
            h.eq('uniform temperature', ground(h, resp, i, n, q, p),
                 T[p], tol=1e-6)


def law_of(h, i):
    """pipes with resistance-like parameter u: they conserve energy"""
    u = h.real('u%d' % i, 50., 5000., typ=(300., 900.))

    def law(fwd, m, cp, nseg, ratios):
        mc = abs(m * cp)
        A = mc / (mc + u)
        w = [h.frac(1, nseg)] * nseg if ratios is None else list(ratios)
        B = [(1. - A) * k for k in w]
        C = [mc * (A - 1.) * k for k in w]
        D = [[mc * b * k for b in B] for k in w]
        return A, B, C, D
    return law


def network(h, bs, c=None):
    from checks.networks import StubPipe
    k_s = h.real('ks', 0.5, 5., typ=(1., 3.))
    pipes = []
    for i, b in enumerate(bs):
        p = StubPipe(h, law_of(h, i))
        p.k_s = k_s
        p.b = b
        pipes.append(p)
    return h.gt.networks.Network(bs, pipes, bore_connectivity=c), k_s


def flows(h, nb, nm, per, back=()):
    """(keyword arguments of gFunction, list of flow rates); back: those
    which are negative (reversed flow)"""
    m = [h.real('m%d' % i, 0.05, 5., typ=(0.1 + 0.3 * i, 0.3 + 0.3 * i))
         for i in range(max(nm, 1))]
    for i in range(nm):
        for j in range(i):
            # the cache of Network merges flow rates closer than its tolerance
            h.assume(abs(m[i] - m[j]) > 0.001)
    m = [-x if i in back else x for i, x in enumerate(m)]
    if not per:
        return dict(m_flow_network=h.arr(m) if nm else m[0]), m
    M = [[mi * (k + 1.) / nb for k in range(nb)] for mi in m]
    if nm:
        return dict(m_flow_borehole=h.arr(M)), [h.arr(x) for x in M]
    return dict(m_flow_borehole=h.arr(M[0])), [h.arr(M[0])]


MIFT = BASE + ['networks.Network.coefficients_borehole_heat_extraction_rate',
               'networks.Network.coefficients_network_heat_extraction_rate',
               'networks.network_thermal_resistance']
PIPES = 'pipes are linear stubs that conserve energy (P01, P02)'


@harness('G03', functions=MIFT, assumes=[ANYH, PIPES],
         bounds='any lengths, response factors, flow rates (negative ones '
         'too) and pipes; equal '
         'or any time steps; any segment ratios; parallel or series connections; numbers of boreholes, '
         'segments, time steps and flow rates of the configuration',
         quick=[dict(nb=2, nseg=1, nt=1, nm=0, per=False),
                dict(nb=2, nseg=1, nt=1, nm=0, per=True),
                dict(nb=2, nseg=1, nt=1, nm=0, per=False, series=True),
                dict(nb=1, nseg=1, nt=2, nm=0, per=False),
                dict(nb=1, nseg=2, nt=1, nm=0, per=False),
                dict(nb=1, nseg=1, nt=2, nm=2, per=False),
                dict(nb=2, nseg=1, nt=1, nm=2, per=True),
                dict(nb=1, nseg=1, nt=2, nm=0, per=False, equal=False),
                dict(nb=1, nseg=2, nt=1, nm=0, per=False, ratios='same'),
                dict(nb=2, nseg=1, nt=1, nm=0, per=False, ratios='list')] +
               [dict(nb=n, nseg=1, nt=1, nm=m, per=p, series=s, back=b)
                for n, m, p, s, b in ((1, 2, False, False, (1,)),
                                      (1, 2, False, False, (0, 1)),
                                      (2, 0, False, True, (0,)),
                                      (2, 2, True, False, (0,)),
                                      (2, 0, True, False, (0,)))],
         thorough=[dict(nb=2, nseg=1, nt=1, nm=2, per=False, series=True,
                        back=b) for b in ((0,), (0, 1))] + [
                   dict(nb=1, nseg=1, nt=3, nm=0, per=False, equal=False),
                   dict(nb=2, nseg=1, nt=2, nm=0, per=False, equal=False),
                   dict(nb=1, nseg=1, nt=2, nm=2, per=False, equal=False),
                   dict(nb=1, nseg=2, nt=1, nm=2, per=False, ratios='same'),
                   dict(nb=2, nseg=1, nt=2, nm=0, per=False),
                   dict(nb=2, nseg=1, nt=2, nm=0, per=True),
                   dict(nb=1, nseg=1, nt=3, nm=0, per=False),
                   dict(nb=3, nseg=1, nt=1, nm=0, per=False),
                   dict(nb=1, nseg=2, nt=2, nm=0, per=False),
                   dict(nb=2, nseg=2, nt=1, nm=0, per=False),
                   dict(nb=2, nseg=1, nt=1, nm=2, per=False),
                   dict(nb=2, nseg=1, nt=1, nm=3, per=True)])
def mixed_inlet(h, nb, nseg, nt, nm, per, series=False, equal=True,
                ratios=None, back=()):
    """MIFT: the temperatures and heat extraction rates found by the solver
    satisfy the equations of the ground and those of the network, for a total
    of 1 per unit length; the g-function is the uniform wall temperature that
    would give the same total with the same inlet temperature"""
    bs = field(h, nb)
    num, rat, L = cut(h, bs, nb, nseg, ratios)
    n = len(L)
    resp = free(h)
    respond(h, resp, n)
    given = rat if rat is None or isinstance(rat, list) else [rat] * nb
    net, ks = network(h, bs, [-1, 0] if series else None)
    kw, ms = flows(h, nb, nm, per, back)
    cp = h.real('cp', 1000., 5000., typ=(3000., 4500.))
    t = times(h, nt, equal)
    g = gfun(h, net, t, 'MIFT', num, cp_f=cp,
             options=dict(segment_ratios=rat), **kw)
    two = 2. * h.pi * ks
    G = g.gFunc
    for j, m in enumerate(ms):
        Q = g.solver.Q_b[j] if nm else g.solver.Q_b
        T = g.solver.T_b[j] if nm else g.solver.T_b
        q = [[Q[i, p] for p in range(nt)] for i in range(n)]
        for p in range(nt):
            h.eq('total heat', sum(q[i][p] * L[i] for i in range(n)),
                 sum(L))
            for i in range(n):
                h.eq('temperature of the walls',
                     superposed(h, resp, i, n, q, p) if equal else
                     superposed_steps(h, resp, i, n, q, p, t),
                     T[i, p], tol=1e-6)
            Tb = h.arr([T[i, p] for i in range(n)])

            def inlet(m):
                a, b = net.coefficients_network_heat_extraction_rate(
                    m, cp, num, segment_ratios=given)
                a = h.np.reshape(h.arr(a), -1)[0]
                b = h.np.reshape(h.arr(b), -1)
                return (-two * sum(L) - sum(
                    b[i] * Tb[i] for i in range(n))) / a
            Tin = inlet(m)
            qb = net.get_borehole_heat_extraction_rate(
                Tin, Tb, m, cp, num, segment_ratios=given)
            qb = h.np.reshape(h.arr(qb), -1)
            for i in range(n):
                h.eq('heat extraction from the network', qb[i] / two,
                     -q[i][p] * L[i], tol=1e-6)
            for i, mi in enumerate(ms):
                gij = G[i, j, p] if nm else G[p]
                Qn = net.get_network_heat_extraction_rate(
                    inlet(mi), gij, mi, cp, 1)
                Qn = h.np.reshape(h.arr(Qn), -1)[0]
                h.eq('effective wall temperature', Qn / two, -sum(L),
                     tol=1e-6)


def split_times(h, nt, below, edge=False):
    """nt times, the first ones no later than the threshold"""
    thr = h.real('threshold', 10., 1e5, typ=(100., 1e4))
    t = []
    for i in range(nt):
        if i < below:
            f = h.real('f%d' % i, 0., 1., typ=(i / (below + .01),
                                              (i + .99) / (below + .01)))
            t.append(thr if edge and i == below - 1 else f * thr)
            if i:
                h.assume(t[i - 1] <= t[i])
        else:
            d = h.real('d%d' % i, 1., 1e9, typ=(1e5, 1e7))
            t.append((t[-1] if i > below else thr) + d)
    return thr, t


@harness('G04', functions=MIFT, assumes=[ANYH, PIPES],
         bounds='any lengths, response factors, threshold and times (one of them '
         'possibly at the threshold); numbers '
         'of boreholes, of times and of times below the threshold of the '
         'configuration',
         quick=[dict(bc=bc, nb=2, below=b, after=a) for bc in ('UHTR', 'UBWT')
                for b, a in ((1, 0), (1, 1), (2, 0), (2, 1), (0, 2))] +
               [dict(bc=bc, nb=2, below=b, after=1, edge=True)
                for bc in ('UHTR', 'UBWT') for b in (1, 2)] +
               [dict(bc='MIFT', nb=1, below=b, after=a, nm=nm)
                for b, a, nm in ((1, 1, 0), (2, 0, 0), (1, 1, 2), (2, 0, 2),
                                 (2, 1, 2), (3, 0, 2))] +
               [dict(bc='MIFT', nb=2, below=b, after=0, nm=nm, series=True)
                for b, nm in ((1, 0), (2, 0), (2, 2))],
         thorough=[dict(bc=bc, nb=n, below=b, after=a)
                   for bc in ('UHTR', 'UBWT') for n in (1, 2, 3)
                   for b in range(4) for a in range(2) if a + b] +
                  [dict(bc='MIFT', nb=1, below=b, after=a, nm=nm)
                   for b in range(4) for a in range(2) if a + b
                   for nm in (0, 2, 3)])
def linear_threshold(h, bc, nb, below, after, nm=0, series=False,
                     edge=False):
    """below the threshold the g-function and temperatures are proportional
    to time and heat extraction rates vary linearly from 1, up to the values
    at the threshold; values after the threshold are those of a simulation
    that begins at the threshold"""
    thr, t = split_times(h, below + after, below, edge)
    bs = field(h, nb)
    later = ([thr] if below else []) + t[below:]

    def resp(i, j, k, tk):
        return h.real('h_%d_%d_%d' % (i, j, k), 0., 20.,
                      typ=(3. + k, 4. + k) if i == j else
                      (0.2 + k, 1. + k))
    respond(h, resp, nb)
    kw = {}
    obj = bs
    if bc == 'MIFT':
        obj, ks = network(h, bs, [-1, 0] if series else None)
        kw, ms = flows(h, nb, nm, False)
        kw['cp_f'] = h.real('cp', 1000., 5000., typ=(3000., 4500.))
    g = gfun(h, obj, t, bc, options=dict(linear_threshold=thr), **kw)
    r = gfun(h, obj, later, bc, options=dict(linear_threshold=h.const(0.)),
             **kw)
    h.true('shape', g.gFunc.shape[-1] == below + after)
    off = 1 if below else 0
    names = ['gFunc']
    if bc != 'UHTR':
        names.append('Q_b')
    names.append('T_b')
    for nme in names:
        x = g.gFunc if nme == 'gFunc' else getattr(g.solver, nme)
        y = r.gFunc if nme == 'gFunc' else getattr(r.solver, nme)
        x = h.np.reshape(x, (-1, below + after))
        y = h.np.reshape(y, (-1, off + after))
        h.true('number of values', x.shape[0] == y.shape[0])
        base = 1. if nme == 'Q_b' else 0.
        for row in range(x.shape[0]):
            for k in range(below + after):
                if k >= below:
                    v = y[row, off + k - below]
                else:
                    v = base + (y[row, 0] - base) * t[k] / thr
                h.eq(nme, x[row, k], v, tol=1e-6)


# --------------------------------------------------------------------------
FLS = ['integrals over the quadrature variable are exact',
       'erf is odd, exp and log satisfy their functional equations']
SIM = ['solvers.similarities.Similarities.*', 'solvers.detailed.Detailed.*',
       'heat_transfer.finite_line_source*']
# x, y in units of the spacings, (class of H, class of D, class of rb)
RANGES = dict(H=[(50., 90.), (150., 300.), (400., 500.)],
              D=[(0.5, 1.), (3., 4.), (12., 15.)],
              rb=[(0.05, 0.08), (0.1, 0.15)])
FIELDS = {
    'pair': [(0, 0, 'aaa'), (1, 0, 'aaa')],
    'two lengths': [(0, 0, 'aaa'), (1, 0, 'baa')],
    'two depths': [(0, 0, 'aaa'), (1, 0, 'aba')],
    'two radii': [(0, 0, 'aaa'), (1, 0, 'aab')],
    'all differ': [(0, 0, 'aaa'), (1, 0, 'bbb')],
    'line': [(0, 0, 'aaa'), (1, 0, 'aaa'), (2, 0, 'aaa')],
    'corner': [(0, 0, 'aaa'), (1, 0, 'aaa'), (0, 2, 'aaa')],
    'line of two lengths': [(0, 0, 'aaa'), (1, 0, 'baa'), (2, 0, 'aaa')],
    'line of two depths': [(0, 0, 'aba'), (1, 0, 'aaa'), (2, 0, 'aba')],
    'line, last differs': [(0, 0, 'aaa'), (1, 0, 'aaa'), (2, 0, 'bba')],
    'line of three': [(0, 0, 'aaa'), (1, 0, 'bba'), (2, 0, 'cca')],
    'radii in a line': [(0, 0, 'aaa'), (1, 0, 'aab'), (2, 0, 'aaa')],
    'square': [(0, 0, 'aaa'), (1, 0, 'aaa'), (0, 1, 'aaa'), (1, 1, 'aaa')],
    'L': [(0, 0, 'aaa'), (1, 0, 'aba'), (0, 1, 'aba'), (2, 0, 'aaa')],
    'swapped depths': [(0, 0, 'aaa'), (1, 0, 'bba'), (0, 2, 'aba'),
                       (1, 2, 'baa')],
}


def similar_field(h, name, tilts=None):
    v = {}
    for k, rs in RANGES.items():
        for i, (a, b) in enumerate(rs):
            v[k, i] = (k, i, a, b)

    def get(k, c):
        e = v[k, 'abc'.index(c)]
        if isinstance(e, tuple):
            e = h.real('%s_%s' % (k, c), e[2], e[3])
            v[k, 'abc'.index(c)] = e
        return e
    B = h.real('B', 5., 8.)
    out = []
    for i, (x, y, c) in enumerate(FIELDS[name]):
        out.append(h.gt.boreholes.Borehole(
            get('H', c[0]), get('D', c[1]), get('rb', c[2]), B * x, B * y))
    return out


def factors(h, cls, bs, t, alpha, nseg, ratios=None, **k):
    h.lazy()
    h.opaque('heat_transfer', 'exp1')
    s = getattr(h.gt.solvers, cls)(
        bs, None, t, 'UBWT', nSegments=nseg, segment_ratios=ratios,
        **k)
    return s.thermal_response_factors(t, alpha)


def some_ratios(h, kind, nseg, nb, fixed=False):
    """(nSegments, segment_ratios) of the configuration"""
    def one(n, tag):
        if n == 1:
            return h.arr([h.const(1.)])
        a, b = (0.1, 0.3) if n == 2 else (0.1, 0.15)
        if fixed:
            r = h.const(b - 0.01 * int(tag[1:] or '3'))
        else:
            r = h.real('ratio' + tag, a, b)
        if n == 2:
            return h.arr([r, 1. - r])
        return h.arr([r, 1. - 3. * r, 2. * r])
    if kind is None:
        return nseg, None
    if kind == 'same':
        return nseg, one(nseg, '')
    if kind == 'each':
        return nseg, [one(nseg, '_%d' % (i % 2)) if i % 2 == 0 else
                      one(nseg, '_%d' % (i % 2))[::-1] for i in range(nb)]
    if kind == 'list':       # different numbers of segments
        n = [nseg + (i + 1) % 2 for i in range(nb)]
        return n, None
    if kind == 'list of ratios':
        n = [nseg + (i + 1) % 2 for i in range(nb)]
        return n, [one(k, '_%d' % k) for k in n]
    if kind == 'one differs':
        h1 = h.np.full(nseg, h.frac(1, nseg))
        return nseg, [one(nseg, '')] + [h1 for i in range(nb - 1)]
    if kind == 'last differs':
        h1 = h.np.full(nseg, h.frac(1, nseg))
        return nseg, [h1 for i in range(nb - 1)] + [one(nseg, '')]
    if kind == 'middle differs':
        h1 = h.np.full(nseg, h.frac(1, nseg))
        return nseg, [one(nseg, '') if i == nb // 2 else h1
                      for i in range(nb)]


def same_factors(h, bs, nseg, nt, approx, ratios, N=1, fixed=False):
    a = h.real('alpha', 1e-7, 1e-5, typ=(5e-7, 2e-6))
    t = h.real('t_1', 1e6, 1e10, typ=(1e8, 1e9))
    t = [t] + [t * (k + 1.) for k in range(1, nt)]
    t = h.arr(t)
    k = dict(approximate_FLS=True, nFLS=N) if approx else {}
    if not all(b.is_vertical() for b in bs):
        k['mQuad'] = N
    nseg, ratios = some_ratios(h, ratios, nseg, len(bs), fixed)
    x = factors(h, 'Detailed', bs, t, a, nseg, ratios, **k)
    y = factors(h, 'Similarities', bs, t, a, nseg, ratios, **k)
    x, y = x.y, y.y
    h.true('shape', x.shape == y.shape)
    n = x.shape[0]
    for i in range(n):
        for j in range(n):
            for p in range(nt + 1):
                h.eq('response factor', y[i, j, p], x[i, j, p], tol=2e-6)


RAT = [None, 'same', 'each', 'list', 'list of ratios', 'one differs',
       'last differs', 'middle differs']


@harness('G05', functions=SIM, assumes=FLS, opts=dict(noise=3e-7),
         bounds='fields of up to four vertical boreholes, in the positions '
         'of the configuration, of one to three lengths, depths and radii '
         '(symbolic, in disjoint ranges), any spacing; segment ratios in '
         'disjoint ranges; one or two times',
         quick=[dict(name=n, nseg=1, nt=1) for n in FIELDS] +
               [dict(name=n, nseg=1, nt=1, approx=True)
                for n in ('all differ', 'line')] +
               [dict(name=n, nseg=2, nt=1) for n in (
                   'pair', 'all differ', 'line')] +
               [dict(name=n, nseg=2, nt=1, ratios=r) for n in (
                   'pair', 'two lengths') for r in RAT[1:]] +
               [dict(name='pair', nseg=1, nt=2),
                dict(name='line', nseg=1, nt=1, ratios='list')] +
               [dict(name='line', nseg=2, nt=1, ratios=r)
                for r in ('last differs', 'middle differs')],
         thorough=[dict(name=n, nseg=s, nt=2, approx=a, ratios=r)
                   for n in FIELDS for s in (1, 2) for a in (False, True)
                   for r in RAT if s > 1 or r in (None, 'list')] +
                  [dict(name='two lengths', nseg=3, nt=1, ratios=r)
                   for r in RAT])
def similar_vertical(h, name, nseg, nt, approx=False, ratios=None):
    """solver 'similarities' uses the same response factors as 'detailed'"""
    same_factors(h, similar_field(h, name), nseg, nt, approx, ratios)


# positions, (class of H, D, rb), class of tilt, orientation in units of pi
INCLINED = {
    'one': [(0., 0., 'aaa', 'a', 0.3)],
    'one along x': [(0., 0., 'aaa', 'a', 0.)],
    'parallel': [(0., 0., 'aaa', 'a', 0.), (6., 0., 'aaa', 'a', 0.)],
    'side by side': [(0., 0., 'aaa', 'a', .5), (6., 0., 'aaa', 'a', .5)],
    'apart': [(0., 0., 'aaa', 'a', 1.), (6., 0., 'aaa', 'a', 0.)],
    'towards': [(0., 0., 'aaa', 'a', 0.), (6., 0., 'aaa', 'a', 1.)],
    'crossed': [(0., 0., 'aaa', 'a', .5), (6., 0., 'aaa', 'a', -.5)],
    'two tilts': [(0., 0., 'aaa', 'a', 0.), (6., 0., 'aaa', 'b', 0.)],
    'all differ': [(0., 0., 'aaa', 'a', .2), (6., 1., 'bbb', 'b', 1.1)],
    'two lengths': [(0., 0., 'aaa', 'a', 0.), (6., 0., 'baa', 'a', 1.)],
    'three': [(0., 0., 'aaa', 'a', 1.), (6., 0., 'aaa', 'a', .5),
              (12., 0., 'aaa', 'a', 0.)],
    'mirror': [(0., 0., 'aaa', 'a', .25), (6., 0., 'aaa', 'a', .25),
               (12., 0., 'aaa', 'a', -.25)],
    'star': [(0., 1., 'aaa', 'a', .5), (1., 0., 'aaa', 'a', 0.),
             (-1., 0., 'aaa', 'a', 1.), (0., -1., 'aaa', 'a', -.5)],
    'horizontal': [(0., 0., 'aaa', 'h', 0.), (0., 6., 'baa', 'h', 0.)],
    'horizontal, three': [(0., 0., 'aaa', 'h', 0.), (0., 6., 'aaa', 'h', 0.),
                          (0., 12., 'aba', 'h', 0.)],
    'one vertical': [(0., 0., 'aaa', 'v', 0.), (6., 0., 'aaa', 'a', .5)],
    'one inclined': [(0., 0., 'aaa', 'v', 0.), (6., 0., 'aaa', 'a', .5),
                     (12., 0., 'aaa', 'v', 0.)],
    'mixed': [(0., 0., 'aaa', 'a', .5), (6., 0., 'bba', 'v', 0.),
              (12., 0., 'aaa', 'a', -.5), (6., 5., 'aaa', 'v', 0.)],
    'three of two lengths': [(0., 0., 'aaa', 'a', 1.),
                             (6., 0., 'baa', 'a', 1.),
                             (12., 0., 'aaa', 'a', 1.)],
}


def inclined_field(h, name, fixed=''):
    tilts = dict(a=(0.1, 0.2), b=(0.4, 0.5), h=None, v=None)
    v = {}

    def get(k, c, rng):
        if (k, c) not in v:
            if c == 'h':
                v[k, c] = 0.5 * h.pi
            elif c == 'v':
                v[k, c] = h.const(0.)
            elif k[0] in fixed:
                v[k, c] = h.const(0.45 * rng[0] + 0.55 * rng[1])
            else:
                v[k, c] = h.real('%s_%s' % (k, c), *rng)
                if k == 'tilt':
                    h.assume(h.sin(v[k, c]) > 0.9 * rng[0])
                    h.assume(h.sin(v[k, c]) < rng[1])
                    h.assume(h.cos(v[k, c]) > 1. - rng[1] ** 2)
        return v[k, c]
    out = []
    for x, y, c, t, o in INCLINED[name]:
        H, D, r = (get(k, c[i], RANGES[k]['abc'.index(c[i])])
                   for i, k in enumerate(('H', 'D', 'rb')))
        out.append(h.gt.boreholes.Borehole(
            H, D, r, h.const(x), h.const(y), tilt=get('tilt', t, tilts[t]),
            orientation=h.const(o) * h.pi))
    return out


def reciprocal(h):
    """replaces the response of inclined line sources by a reciprocal function
    of the quantities that determine it: lengths, depths, tilts, distance,
    angle between the boreholes and how much each one leans away"""
    np = h.np

    def kernel(time, alpha, rb1, x1, y1, H1, D1, tilt1, orientation1, x2, y2,
               H2, D2, tilt2, orientation2, *args, **kwargs):
        dx, dy = x1 - x2, y1 - y2
        s1, s2 = np.sin(tilt1), np.sin(tilt2)
        rr = np.maximum(dx ** 2 + dy ** 2, rb1 ** 2)
        k1 = s1 * (np.cos(orientation1) * dx + np.sin(orientation1) * dy)
        k2 = -s2 * (np.cos(orientation2) * dx + np.sin(orientation2) * dy)
        q = s1 * s2 * np.cos(orientation1 - orientation2)

        def half(H, D, s, k, H_, D_, s_, k_):
            return (H * 0.3 + D * 1.7 + s * 9. + k * 2.3 + H * D_ * 0.11 +
                    H * k_ * 0.13 + D * k_ * 0.31 + H_ * s * 0.7 +
                    H * k * 0.05 + H * s * 0.03 + D * s * 0.3 + k * s * 0.9 +
                    k * k_ + H * D * 0.07 + D * D_ + H * H_ * 0.01 +
                    rr * (0.5 + 0.02 * H + 0.4 * k + 0.1 * D) +
                    q * (7. + 0.3 * H + 0.6 * k + 0.2 * D + rr))
        v = (half(H1, D1, s1, k1, H2, D2, s2, k2) +
             half(H2, D2, s2, k2, H1, D1, s1, k1)) / H2
        return np.multiply.outer(v, time * alpha)

    def upright(time, alpha, dis, H1, D1, H2, D2, *args, **kwargs):
        return kernel(time, alpha, dis, 0. * dis, 0., H1, D1, 0., 0., 0., 0.,
                      H2, D2, 0., 0.)
    for m in (h.gt.heat_transfer, h.gt.solvers.detailed,
              h.gt.solvers.similarities):
        if hasattr(m, 'finite_line_source_inclined_vectorized'):
            h.patch(m, 'finite_line_source_inclined_vectorized', kernel)
        if hasattr(m, 'finite_line_source_vectorized'):
            h.patch(m, 'finite_line_source_vectorized', upright)


DIRECT = ['one', 'one along x', 'side by side', 'apart', 'towards', 'crossed',
          'star']


@harness('G05', functions=SIM, assumes=FLS, opts=dict(noise=3e-7),
         bounds='fields of up to four inclined boreholes, with the positions '
         'and orientations of the configuration and any length, depth, '
         'radius and tilt in disjoint ranges',
         quick=[dict(name=n, nseg=1, nt=1) for n in INCLINED] +
               [dict(name=n, nseg=1, nt=1, direct=True) for n in DIRECT] +
               [dict(name=n, nseg=2, nt=1, fixed='tH') for n in INCLINED] +
               [dict(name=n, nseg=2, nt=1, ratios=r, fixed='tHq')
                for r in RAT[1:] for n in ('parallel', 'all differ')] +
               [dict(name='three of two lengths', nseg=2, nt=1, ratios=r,
                     fixed='tHq') for r in ('last differs',
                                            'middle differs')],
         thorough=[dict(name=n, nseg=s, nt=2, ratios=r, fixed='tHq')
                   for s in (2, 3) for r in RAT for n in INCLINED] +
                  [dict(name=n, nseg=2, nt=1, fixed='t') for n in (
                      'one', 'one along x', 'parallel', 'two lengths',
                      'horizontal', 'horizontal, three')])
def similar_inclined(h, name, nseg, nt, approx=False, ratios=None, M=1,
                     direct=False, fixed=''):
    """solver 'similarities' uses the same response factors as 'detailed',
    inclined boreholes"""
    if fixed:
        h.floats()
    if not direct:
        reciprocal(h)
    same_factors(h, inclined_field(h, name, fixed), nseg, nt, approx, ratios,
                 M, 'q' in fixed)


def plain_response(h):
    """replaces the response of vertical line sources by one that is inversely
    proportional to the distance"""
    np = h.np

    def kernel(time, alpha, dis, H1, D1, H2, D2, reaSource=True,
               imgSource=True, approximation=False, M=11, N=10):
        return np.multiply.outer((H1 + H2 + D1 + D2) / (H2 * dis), time)

    def groups(time, alpha, dis, wDis, H1, D1, H2, D2, N2, reaSource=True,
               imgSource=True):
        v = ((1. / dis[0, :]) @ wDis).reshape(-1, 1) / N2
        return np.multiply.outer(v * (H1 + H2 + D1 + D2) / H2, time)
    for m in (h.gt.heat_transfer, h.gt.solvers.detailed,
              h.gt.solvers.similarities, h.gt.solvers.equivalent):
        for n, f in (('finite_line_source_vectorized', kernel),
                     ('finite_line_source_equivalent_boreholes_vectorized',
                      groups)):
            if hasattr(m, n):
                h.patch(m, n, f)


NEAR = {     # positions as a function of a small length
    'line': lambda d: [(0., 0.), (5., 0.), (10. + d, 0.)],
    'line, last': lambda d: [(0., 0.), (5., 0.), (15. + d, 0.), (20., 0.)],
    'triangle': lambda d: [(0., 0.), (5., 0.), (0., 5. + d)],
    'T': lambda d: [(0., 0.), (5., 0.), (0., -5. - d), (0., 4.96)],
}


@harness('G05', functions=SIM[1:], assumes=[
    'the response is inversely proportional to the distance (the finite line '
    'source solution is replaced)'],
    bounds='three or four boreholes at distances that differ by any small '
    'length, any tolerance on distances', quick=[
        dict(name=n, solver=s, tol=t) for n in NEAR
        for s in ('Similarities',) for t in (0.01, 0.05)])
def nearly_equal_distances(h, name, solver, tol):
    """solvers 'similarities' and 'equivalent' change distances by no more
    than their tolerance"""
    gt = h.gt
    plain_response(h)
    d = h.real('d', 0., 0.4, strict=False)
    bs = [gt.boreholes.Borehole(100., 4., 0.075, h.const(x), y * h.const(1.))
          for x, y in NEAR[name](d)]
    any_clusters(h, one=True)
    n = len(bs)
    t = h.arr([h.const(1.)])
    k = dict(kClusters=0) if solver == 'Equivalent' else {}
    s = getattr(gt.solvers, solver)(
        bs, None, t, 'UHTR', nSegments=1, segment_ratios=None, disTol=tol,
        **k)
    y = s.thermal_response_factors(t, h.const(1.)).y[:, :, 1]
    x = s2 = None
    if solver == 'Equivalent':
        h.true('one group', y.shape == (1, 1))
    total = h.const(0.)
    for i in range(n):
        for j in range(n):
            e = bs[i].distance(bs[j]) if i != j else bs[i].r_b
            r = 208. / (100. * e)
            if i != j:
                total = total + r / n
            if solver == 'Equivalent':
                continue
            h.le('distance within the tolerance', y[j, i] / r,
                 1. + 1.001 * tol)
            h.le('distance within the tolerance', r / y[j, i],
                 1. + 1.001 * tol)
    if solver == 'Equivalent':
        z = y[0, 0] - 2.08 / 0.075
        h.le('distances within the tolerance', z, total * (1. + 1.001 * tol))
        h.le('distances within the tolerance', total, z * (1. + 1.001 * tol))


# --------------------------------------------------------------------------
EQV = ['solvers.equivalent.Equivalent.*', 'boreholes._EquivalentBorehole.*',
       'heat_transfer.finite_line_source_equivalent_boreholes_vectorized']
CLUST = 'any partition of similar boreholes may come out of the clustering ' \
        '(scipy.cluster.hierarchy is replaced)'
GROUPS = {
    'pair': [(0, 0, 'aaa'), (1, 0, 'aaa')],
    'two lengths': [(0, 0, 'aaa'), (1, 0, 'baa')],
    'two depths': [(0, 0, 'aaa'), (1, 0, 'aba')],
    'two radii': [(0, 0, 'aaa'), (1, 0, 'aab')],
    'line': [(0, 0, 'aaa'), (1, 0, 'aaa'), (2, 0, 'aaa')],
    'pairs': [(0, 0, 'aaa'), (1, 0, 'bba'), (2, 0, 'aaa'), (0, 2, 'bba')],
    'square': [(0, 0, 'aaa'), (1, 0, 'aaa'), (0, 1, 'aaa'), (1, 1, 'aaa')],
    'three and one': [(0, 0, 'aaa'), (3, 0, 'aba'), (0, 1, 'aaa'),
                      (1, 0, 'aaa')],
    'interleaved': [(0, 0, 'bba'), (1, 0, 'aaa'), (0, 2, 'bba'),
                    (3, 0, 'aaa')],
    'swapped depths': [(0, 0, 'aaa'), (1, 0, 'bba'), (0, 2, 'aba'),
                       (1, 2, 'baa')],
}
FIELDS.update({k: v for k, v in GROUPS.items() if k not in FIELDS})


def clusters(h, n):
    """a partition of n boreholes chosen by the solver, as labels"""
    lab = [0]
    for i in range(1, n):
        lab.append(h.choice('label_%d_%d' % (n, i),
                            list(range(max(lab) + 2))))
    return lab


def any_clusters(h, one=False):
    """replaces the hierarchical clustering"""
    m = h.gt.solvers.equivalent
    np = h.np
    memo = {}

    def linkage(y, *a, **k):
        return np.shape(y)[0]

    def dendrogram(n, *a, **k):
        return dict(dcoord=[[0., 1e9, 1e9, 0.] for i in range(n - 1)])

    def cut_tree(n, n_clusters=None, height=None):
        if one and n_clusters is not None:
            return np.array([[min(i, int(n_clusters) - 1)]
                             for i in range(n)])
        if n not in memo:
            memo[n] = [0] * n if one else clusters(h, n)
        return np.array([[k] for k in memo[n]])

    def mutual(time, alpha, b1, b2, *a, **k):
        if time is np.inf:
            return np.ones((len(b2), len(b1)))
        return fls(time, alpha, b1, b2, *a, **k)
    fls = getattr(m, 'finite_line_source', None)
    if hasattr(m, 'linkage'):
        h.patch(m, 'linkage', linkage)
        h.patch(m, 'dendrogram', dendrogram)
        h.patch(m, 'cut_tree', cut_tree)
    if fls is not None:
        h.patch(m, 'finite_line_source', mutual)


@harness('G06', functions=EQV + SIM[1:], assumes=FLS + [CLUST],
         opts=dict(noise=3e-7),
         bounds='fields of up to four vertical boreholes, in the positions '
         'of the configuration, of one or two lengths, depths and radii '
         '(symbolic, in disjoint ranges), any spacing; any partition; one '
         'time',
         quick=[dict(name=n, nseg=1) for n in GROUPS] +
               [dict(name=n, nseg=2) for n in ('pair', 'two lengths',
                                               'line')] +
               [dict(name=n, nseg=2, ratios='same')
                for n in ('pair', 'two depths')],
         thorough=[dict(name=n, nseg=2, nt=2, ratios=r) for n in GROUPS
                   for r in (None, 'same')] +
                  [dict(name=n, nseg=3) for n in ('pair', 'two lengths')])
def groups_of_boreholes(h, name, nseg, nt=1, ratios=None):
    """solver 'equivalent' uses the sums, over the boreholes of a group, and
    averages, over those of the other, of the response factors of 'detailed';
    groups are made of boreholes of the same dimensions and each borehole is
    in one group"""
    bs = similar_field(h, name)
    any_clusters(h)
    a = h.real('alpha', 1e-7, 1e-5, typ=(5e-7, 2e-6))
    t = h.real('t_1', 1e6, 1e10, typ=(1e8, 1e9))
    t = h.arr([t] + [t * (k + 1.) for k in range(1, nt)])
    _, rat = some_ratios(h, ratios, nseg, len(bs))
    h.lazy()
    x = factors(h, 'Detailed', bs, t, a, nseg, rat).y
    s = h.gt.solvers.Equivalent(bs, None, t, 'UBWT', nSegments=nseg,
                                segment_ratios=rat, kClusters=0)
    y = s.thermal_response_factors(t, a).y
    ng = s.nEqBoreholes
    lab = [int(h.np.reshape(c, -1)[0]) for c in s.clusters]
    h.true('one group each', len(lab) == len(bs) and
           sorted(set(lab)) == list(range(ng)) and len(s.boreholes) == ng)
    h.true('shape', y.shape == (ng * nseg, ng * nseg, nt + 1))
    mem = [[i for i in range(len(bs)) if lab[i] == g] for g in range(ng)]
    cls = FIELDS[name]
    L = s.segment_lengths()
    for g in range(ng):
        h.true('same dimensions', len({cls[i][2] for i in mem[g]}) == 1)
        h.true('number of boreholes', int(s.wBoreholes[g]) == len(mem[g]))
        r = [h.frac(1, nseg)] * nseg if rat is None else list(rat)
        for v in range(nseg):
            h.eq('lengths', L[g * nseg + v],
                 bs[mem[g][0]].H * r[v] * len(mem[g]))
    for I in range(ng):
        for J in range(ng):
            for v in range(nseg):
                for u in range(nseg):
                    for p in range(nt + 1):
                        ref = h.const(0.)
                        for i in mem[I]:
                            for j in mem[J]:
                                ref = ref + x[j * nseg + v, i * nseg + u, p]
                        h.eq('response factor',
                             y[J * nseg + v, I * nseg + u, p],
                             ref / len(mem[J]), tol=2e-6)



@harness('G06', functions=EQV, assumes=[
    'the response is inversely proportional to the distance (the finite line '
    'source solution is replaced)'],
    bounds='three or four boreholes at distances that differ by any small '
    'length, any tolerance on distances', quick=[
        dict(name=n, solver=s, tol=t) for n in NEAR
        for s in ('Equivalent',) for t in (0.01, 0.05)
        if n != 'line, last'])
def nearby_distances(h, name, solver, tol):
    """solver 'equivalent' changes distances by no more than its tolerance"""
    nearly_equal_distances(h, name, solver, tol)


EQPAIRS = {'one group': [[0, 1]],
           'two groups': [[0], [1]],
           'line': [[0, 2], [1]]}


@harness('G06', functions=BASE + MIFT[5:] + EQV[:1] + [
    'networks._EquivalentNetwork.*'], assumes=[ANYH, PIPES],
         bounds='two or three boreholes (a pair of identical boreholes at '
         'symmetric positions, or all different), any lengths, response '
         'factors, pipes and flow rates; equal time steps',
         quick=[dict(name=n, bc=b, nt=1) for n in EQPAIRS
                for b in ('UHTR', 'UBWT', 'MIFT')
                if (n, b) != ('line', 'MIFT')] +
               [dict(name=n, bc='MIFT', nt=1, nm=m, per=p) for n, m, p in (
                   ('one group', 0, True), ('one group', 2, True),
                   ('one group', 2, False), ('two groups', 0, True),
                   ('one group', 0, 'unequal'), ('one group', 1, 'unequal'))] +
               [dict(name='one group', bc='UBWT', nt=2)],
         thorough=[dict(name='one group', bc='MIFT', nt=2)])
def same_as_detailed(h, name, bc, nt, nm=0, per=False):
    """where the boreholes of a group are interchangeable, 'equivalent' gives
    the g-function, temperatures and heat extraction rates of 'detailed'"""
    groups = EQPAIRS[name]
    nb = sum(len(g) for g in groups)
    of = [g for i in range(nb) for g in range(len(groups)) if i in groups[g]]
    Hs = [h.real('H%d' % g, *RANGES['H'][g]) for g in range(len(groups))]
    any_clusters(h, one=True)

    def value(i, j, k):
        # same values for interchangeable boreholes
        a, b = of[i], of[j]
        kind = 'self' if i == j else 'with'
        return h.real('h_%s_%d_%d_%d' % (kind, a, b, k), 0., 20.,
                      typ=(3. + k, 4. + k) if i == j else (0.2 + k, 1. + k))

    def factors(self, time, alpha, kind='linear'):
        t = h.np.hstack((h.arr([0.]), time))
        y = [[[h.const(0.)] + [value(i, j, k) for k in range(nt)]
              for j in range(nb)] for i in range(nb)]
        return h.interp1d(t, h.arr(y), axis=2)

    def grouped(self, time, alpha, kind='linear'):
        t = h.np.hstack((h.arr([0.]), time))
        h.true('groups', [int(w) for w in h.np.reshape(
            self.wBoreholes, -1)] == [len(g) for g in groups])
        y = [[[h.const(0.)] + [sum(value(i, j, k) for i in I for j in J) /
                               len(I) for k in range(nt)]
              for J in groups] for I in groups]
        return h.interp1d(t, h.arr(y), axis=2)
    h.patch(h.gt.solvers.Detailed, 'thermal_response_factors', factors)
    h.patch(h.gt.solvers.Similarities, 'thermal_response_factors', factors)
    h.patch(h.gt.solvers.Equivalent, 'thermal_response_factors', grouped)
    t = times(h, nt, True)
    g = {}
    kw, ms = flows(h, nb, nm, False) if bc == 'MIFT' else ({}, None)
    if bc == 'MIFT':
        kw['cp_f'] = h.real('cp', 1000., 5000., typ=(3000., 4500.))
        if per:
            kw.pop('m_flow_network')
            M = [[m / nb * (b + 1. if per == 'unequal' else 1.)
                  for b in range(nb)] for m in ms]
            kw['m_flow_borehole'] = h.arr(M if nm else M[0])
    grouped_now = per != 'unequal'     # else switches to 'similarities'
    for method in ('detailed', 'equivalent'):
        B = h.gt.boreholes.Borehole
        obj = [B(Hs[of[i]], 4., 0.075, 6. * i, 0.) for i in range(nb)]
        if bc == 'MIFT':
            from checks.networks import StubPipe
            ks = h.real('ks', 0.5, 5., typ=(1., 3.))
            u = h.real('u', 50., 5000., typ=(300., 900.))
            pipes = []
            for b in obj:
                p = StubPipe(h, law_of(h, 0))
                p.k_s, p.b, p._Rd = ks, b, h.np.eye(2)
                pipes.append(p)
            obj = h.gt.networks.Network(obj, pipes)
        o = dict(linear_threshold=h.const(0.))
        if method == 'equivalent':
            o['kClusters'] = 0
        g[method] = gfun(h, obj, t, bc, 1, options=o, method=method, **kw)
    a, b = g['detailed'], g['equivalent']
    h.true('method', (b.method == 'equivalent') == grouped_now)
    h.true('shape', h.np.shape(a.gFunc) == h.np.shape(b.gFunc))
    x, y = (h.np.reshape(v.gFunc, -1) for v in (a, b))
    for k in range(len(x)):
        h.eq('g-function', x[k], y[k], tol=1e-6)
    for nme in ('Q_b', 'T_b'):
        x, y = (h.np.reshape(getattr(v.solver, nme), -1) for v in (a, b))
        h.true('some values', len(x) > 0)
        if (nme, bc) in (('Q_b', 'UHTR'), ('T_b', 'UBWT')):
            continue
        x = h.np.reshape(x, (-1, nb, nt))
        y = h.np.reshape(y, (-1, len(groups) if grouped_now else nb, nt))
        for m in range(max(nm, 1)):
            for i in range(nb):
                for k in range(nt):
                    h.eq(nme, x[m, i, k], y[
                        m, of[i] if grouped_now else i, k], tol=1e-6)

# --------------------------------------------------------------------------
@harness('G01', functions=BASE[1:3], bounds='any times and loads, number of '
         'sources and time steps of the configuration',
         quick=[dict(n=1, nt=k, uniform=u) for k in (1, 2, 3)
                for u in (False, True)] + [dict(n=2, nt=4, uniform=True),
                                           dict(n=2, nt=2, uniform=False)],
         thorough=[dict(n=1, nt=4, uniform=False),
                   dict(n=3, nt=6, uniform=True),
                   dict(n=2, nt=3, uniform=False)])
def load_history(h, n, nt, uniform):
    """the history of loads, remapped on the time steps in reverse order,
    gives the same heat up to any of the new times; loads do not change when
    all time steps are equal"""
    s = h.gt.solvers.Detailed(field(h, 1), None, h.const(1.), 'UHTR',
                              nSegments=1)
    t = times(h, nt, uniform)
    q = [[h.real('q%d_%d' % (i, k), -10., 10.) for k in range(nt)]
         for i in range(n)]
    r = s.load_history_reconstruction(h.arr(t), h.arr(q))
    h.true('shape', r.shape == (n, nt))
    if uniform:
        for i in range(n):
            for k in range(nt):
                h.eq('same loads', r[i, k], q[i][k])
    d = [t[k] - (t[k - 1] if k else 0.) for k in range(nt)]
    for i in range(n):
        now, heat = h.const(0.), h.const(0.)
        for k in range(nt):
            now = now + d[nt - 1 - k]
            heat = heat + r[i, k] * d[nt - 1 - k]
            ref = h.const(0.)
            for p in range(nt):
                a = t[p - 1] if p else h.const(0.)
                # part of the time step p that comes before now
                part = h.maximum(0., now - a) - h.maximum(0., now - t[p])
                ref = ref + q[i][p] * part
            h.eq('heat so far', heat / t[0], ref / t[0], tol=1e-6)


@harness('G01', functions=BASE[1:2], bounds='any response factors and loads; '
         'numbers of sources and time steps of the configuration',
         quick=[dict(n=1, nt=1), dict(n=2, nt=3), dict(n=3, nt=2)],
         thorough=[dict(n=3, nt=6), dict(n=5, nt=3)])
def superposition(h, n, nt):
    """temperatures are the sum of the responses to the changes of loads"""
    s = h.gt.solvers.Detailed(field(h, 1), None, h.const(1.), 'UHTR',
                              nSegments=1)
    q = [[h.real('q%d_%d' % (i, k), -10., 10.) for k in range(nt)]
         for i in range(n)]
    f = free(h)
    more = 1
    y = [[[f(i, j, k, None) for k in range(nt + more)] for j in range(n)]
         for i in range(n)]
    T = s.temporal_superposition(h.arr(y), h.arr(q))
    T = h.np.reshape(T, -1)
    h.true('shape', len(T) == n)
    for i in range(n):
        h.eq('superposition', T[i], superposed(h, f, i, n, q, nt - 1))


@harness('G01', functions=BASE, assumes=[ANYH],
         bounds='any lengths, response factors, segment ratios and '
         'increasing times; numbers of boreholes, segments and times of the '
         'configuration', quick=[dict(nb=1, nseg=1, nt=3),
                                 dict(nb=2, nseg=2, nt=2),
                                 dict(nb=2, nseg=2, nt=2, ratios='same'),
                                 dict(nb=3, nseg=1, nt=2),
                                 dict(nb=2, nseg=1, nt=2, ratios='list')],
         thorough=[dict(nb=3, nseg=3, nt=3), dict(nb=5, nseg=2, nt=2)])
def uniform_rates(h, nb, nseg, nt, ratios=None):
    """UHTR: wall temperatures are sums of response factors and the g-function
    is their average weighted by the lengths of the segments"""
    bs = field(h, nb)
    nseg, rat = some_ratios(h, ratios, nseg, nb)
    num = nseg if isinstance(nseg, list) else [nseg] * nb
    resp = free(h)
    respond(h, resp, sum(num))
    g = gfun(h, bs, times(h, nt, False), 'UHTR', nseg,
             options=dict(linear_threshold=h.const(0.), segment_ratios=rat))
    n = sum(num)
    L = []
    for i, b in enumerate(bs):
        L += [h.frac(1, num[i]) * b.H] * num[i] if rat is None else \
            [x * b.H for x in (rat if not isinstance(rat, list) else rat[i])]
    for p in range(nt):
        tot = h.const(0.)
        for i in range(n):
            T = sum(resp(i, j, p, None) for j in range(n))
            h.eq('wall temperature', g.solver.T_b[i, p], T)
            tot = tot + T * L[i]
        h.eq('g-function', g.gFunc[p], tot / sum(L))


# --------------------------------------------------------------------------
def by_borehole(h):
    """response factors that depend on the positions of the boreholes"""
    def factors(self, time, alpha, kind='linear'):
        nt = len(time)
        seg = []
        for b in self.boreSegments:
            x = h.np.reshape(h.arr(b.x), -1)[0]
            x = int(round(float(x if isinstance(x, float)
                                else x.r.const_value()))) // 6
            seg.append((x, len([s for s in seg if s[0] == x])))

        def resp(i, j, k):
            a, b = seg[i], seg[j]
            nm = 'h_%d%d_%d%d_%d' % (a + b + (k,))
            return h.real(nm, 0., 20., typ=(3. + k, 4. + k) if a == b else
                          (0.2 + k, 1. + k))
        n = len(seg)
        y = [[[h.const(0.)] + [resp(i, j, k) for k in range(nt)]
              for j in range(n)] for i in range(n)]
        t = h.np.hstack((h.arr([0.]), time))
        return h.interp1d(t, h.arr(y), axis=2, kind=kind)
    h.patch(h.gt.solvers.Detailed, 'thermal_response_factors', factors)


def problem(h, bc, nb, nm=0, per=False, order=None, series=False):
    """(boreholes or network, keyword arguments of gFunction)"""
    bs = field(h, nb)
    if order:
        bs = [bs[i] for i in order]
    if bc != 'MIFT':
        return bs, {}
    kw, ms = flows(h, nb, nm, per)
    from checks.networks import StubPipe
    ks = h.real('ks', 0.5, 5., typ=(1., 3.))
    pipes = []
    for i in order or range(nb):
        p = StubPipe(h, law_of(h, i))
        p.k_s = ks
        pipes.append(p)
    c = [-1, 0] if series else None
    kw['cp_f'] = h.real('cp', 1000., 5000., typ=(3000., 4500.))
    return h.gt.networks.Network(bs, pipes, bore_connectivity=c), kw


BCS = ('UHTR', 'UBWT', 'MIFT')


def results(h, g, nt):
    out = [('g-function', h.np.reshape(g.gFunc, (-1, nt)))]
    if g.boundary_condition != 'UHTR':
        out.append(('heat extraction rates', h.np.reshape(
            g.solver.Q_b, (-1, nt))))
    out.append(('temperatures', h.np.reshape(g.solver.T_b, (-1, nt))))
    return out


def same_results(h, a, na, b, nb):
    """the first values of a are those of b"""
    x, y = results(h, a, na), results(h, b, nb)
    for (nme, u), (_, v) in zip(x, y):
        h.true('shape', u.shape[0] == v.shape[0])
        for i in range(u.shape[0]):
            for k in range(min(na, nb)):
                h.eq(nme, u[i, k], v[i, k], tol=1e-6)


@harness('G07', functions=MIFT, assumes=[ANYH, PIPES],
         bounds='any lengths, response factors and increasing times; numbers '
         'of boreholes and times of the configuration',
         quick=[dict(bc=b, nb=n, nt=t) for b in BCS for n, t in (
             (1, 2), (1, 3), (2, 2)) if (b, n, t) != ('MIFT', 2, 2)] +
               [dict(bc='MIFT', nb=1, nt=2, nm=2)],
         thorough=[dict(bc=b, nb=2, nt=3) for b in BCS])
def causality(h, bc, nb, nt, nm=0):
    """values do not depend on what comes after them: those of the first
    times are those of a shorter simulation, whether done before or after,
    with the same object or another one"""
    respond(h, free(h), nb)
    o = dict(linear_threshold=h.const(0.))
    obj, kw = problem(h, bc, nb, nm)
    t = times(h, nt, False)
    g = gfun(h, obj, t, bc, options=o, **kw)
    for k in range(1, nt):
        obj, kw = problem(h, bc, nb, nm)
        s = gfun(h, obj, t[:k], bc, options=o, **kw)
        same_results(h, s, k, g, nt)
        again = s.evaluate_g_function(h.arr(t))
        same_results(h, s, nt, g, nt)
        s.evaluate_g_function(h.arr(t[:k]))
        same_results(h, s, k, g, nt)


@harness('G07', functions=MIFT, assumes=[ANYH, PIPES],
         bounds='any lengths, response factors; equal time steps; all orders '
         'of up to three boreholes',
         quick=[dict(bc=b, nb=n, nt=t, order=o) for b in BCS for n, t, o in (
             (2, 1, [1, 0]), (3, 1, [2, 0, 1]), (2, 2, [1, 0]))
                if (b, n) != ('MIFT', 3) and (b, t) != ('MIFT', 2)],
         thorough=[dict(bc=b, nb=3, nt=1, order=o) for b in BCS for o in (
             [0, 2, 1], [2, 1, 0])])
def order_of_boreholes(h, bc, nb, nt, order):
    """the order of the boreholes does not matter"""
    by_borehole(h)
    o = dict(linear_threshold=h.const(0.))
    t = times(h, nt, True)
    obj, kw = problem(h, bc, nb)
    a = gfun(h, obj, t, bc, options=o, **kw)
    obj, kw = problem(h, bc, nb, order=order)
    b = gfun(h, obj, t, bc, options=o, **kw)
    for p in range(nt):
        h.eq('g-function', a.gFunc[p], b.gFunc[p], tol=1e-6)
        for i, k in enumerate(order):
            if bc != 'UHTR':
                h.eq('heat extraction rates', a.solver.Q_b[k, p],
                     b.solver.Q_b[i, p], tol=1e-6)
            if bc != 'UBWT':
                h.eq('temperatures', a.solver.T_b[k, p], b.solver.T_b[i, p],
                     tol=1e-6)


@harness('G07', functions=MIFT + ['gfunction.gFunction._format_inputs'],
         assumes=[ANYH, PIPES],
         bounds='any lengths, response factors and flow rates; numbers of '
         'boreholes and of flow rates of the configuration',
         quick=[dict(nb=2, how=w, nm=k) for w in ('borehole', 'network')
                for k in (0, 2) if (w, k) != ('network', 2)] +
               [dict(nb=2, how='network array', nm=0)])
def ways_to_give_flows(h, nb, how, nm):
    """a total flow rate, the flow rates per borehole that add up to it, and
    those of the network give the same g-function"""
    respond(h, free(h), nb)
    o = dict(linear_threshold=h.const(0.))
    t = times(h, 1, True)
    obj, kw = problem(h, 'MIFT', nb, nm)
    a = gfun(h, obj, t, 'MIFT', options=o, **kw)
    obj, kw2 = problem(h, 'MIFT', nb, nm)
    m = kw2.pop('m_flow_network')
    if how == 'borehole':
        if nm:
            m = h.arr([[m[i] / nb for b in range(nb)] for i in range(nm)])
        else:
            m = h.arr([m / nb for b in range(nb)])
        kw2['m_flow_borehole'] = m
    else:
        obj.m_flow_network = m if how == 'network' else h.arr(
            [m / nb for b in range(nb)])
        obj.cp_f = kw2.pop('cp_f')
    b = gfun(h, obj, t, 'MIFT', options=o, **kw2)
    same_results(h, a, 1, b, 1)


@harness('G08', functions=['gfunction.gFunction._heat_extraction_rates',
                           'gfunction.gFunction._temperatures',
                           'gfunction.gFunction.'
                           '_heat_extraction_rate_profiles',
                           'gfunction.gFunction._temperature_profiles'],
         assumes=[ANYH, PIPES], bounds='any lengths, response factors, '
         'segment ratios and times; numbers of segments, times and flow '
         'rates of the configuration',
         quick=[dict(bc=b, nseg=s, nt=t, at=a, ratios=r)
                for b in BCS for s, t, a, r in (
                    (1, 2, None, None), (1, 3, 1, None),
                    (2, 1, None, 'list of ratios'), (2, 2, 0, 'same'))
                if b != 'MIFT' or r != 'list of ratios'] +
               [dict(bc='MIFT', nseg=s, nt=2, nm=2, at=a, ratios=r)
                for s in (1, 2) for a in (None, 0) for r in (None, 'same')],
         thorough=[dict(bc=b, nseg=3, nt=2, at=a, ratios=r) for b in BCS
                   for a in (None, 0) for r in (None, 'same')])
def profiles(h, bc, nseg, nt, at, ratios=None, nm=0):
    """heat extraction rates and temperatures of a borehole are averages over
    its length of those of its segments; profiles are those of the segments,
    at the last time or interpolated linearly between times"""
    nb = 1 if bc == 'MIFT' else 2
    t = times(h, nt, False)
    obj, kw = problem(h, bc, nb, nm)
    n, rat = some_ratios(h, ratios, nseg, nb)
    num = n if isinstance(n, list) else [n] * nb
    any_values = (nseg > 1 or nt > 2) and bc != 'UHTR'
    respond(h, (lambda i, j, k, t: h.const(4. + k if i == j else 1. + k))
            if any_values else free(h), sum(num))
    g = gfun(h, obj, t, bc, n, options=dict(
        linear_threshold=h.const(0.), segment_ratios=rat), **kw)
    bs = g.solver.boreholes
    if any_values:         # whatever the solver finds
        for nme in ('Q_b', 'T_b'):
            x = h.np.reshape(getattr(g.solver, nme), -1)
            setattr(g.solver, nme, h.np.reshape(h.arr(
                [h.real('%s_%d' % (nme, i), -10., 10.)
                 for i in range(len(x))]), getattr(g.solver, nme).shape))
    Q, T = g.solver.Q_b, g.solver.T_b
    f = None
    if at is not None:
        f = h.real('when', 0., 1., typ=(0.1, 0.9))
        time = t[at] + f * (t[at + 1] - t[at])
    else:
        time = None
    which = list(range(nb))[::-1]

    def value(X, i, j, k, always):
        """of segment j of borehole i for the k-th flow rate"""
        if always == 'one':        # one value of all times and segments
            return lambda p: h.const(1.)
        if always == 'segments':   # same value of all segments
            return lambda p: X[p]
        s = sum(num[:i]) + j
        return (lambda p: X[k, s, p]) if nm else (lambda p: X[s, p])

    def now(v):
        if at is None:
            return v(nt - 1)
        return v(at) + f * (v(at + 1) - v(at))
    for X, mean, prof, always in (
            (Q, g._heat_extraction_rates, g._heat_extraction_rate_profiles,
             'one' if bc == 'UHTR' else ''),
            (T, g._temperatures, g._temperature_profiles,
             'segments' if bc == 'UBWT' else '')):
        M = mean(which)
        z, P = prof(time, which)
        h.true('numbers', len(M) == nb and len(z) == nb and len(P) == nb)
        for w, i in enumerate(which):
            r = [h.frac(1, num[i])] * num[i] if rat is None else list(
                rat[i] if isinstance(rat, list) else rat)
            m = h.np.reshape(M[w], (-1, nt))
            flat = num[i] == 1 or always
            p = h.np.reshape(P[w], (-1, 2 if flat else num[i]))
            h.true('number of flow rates', m.shape[0] == max(nm, 1) and
                   p.shape[0] == max(nm, 1))
            zi = h.np.reshape(z[w], -1)
            b = bs[i]
            if flat:
                zr = [b.D, b.D + b.H]
            else:
                zr = [b.D + b.H * (sum(r[:j], h.const(0.)) + r[j] / 2.)
                      for j in range(num[i])]
            h.true('number of depths', len(zi) == len(zr))
            h.eq('depths', list(zi), zr)
            for k in range(max(nm, 1)):
                vs = [value(X, i, j, k, always) for j in range(num[i])]
                for q in range(nt):
                    h.eq('average', m[k, q], sum(
                        vs[j](q) * r[j] for j in range(num[i])))
                for j in range(len(zr)):
                    h.eq('profile', p[k, j], now(vs[0 if flat else j]))
