"""L01-L03: load aggregation."""
from engine.checks_util import harness

SCHEMES = ['ClaessonJaved', 'MLAA', 'Liu']


def make(h, scheme, dt, K, nS, small=True):
    la = h.gt.load_aggregation
    tmax = dt * K
    if scheme == 'ClaessonJaved':
        return la.ClaessonJaved(dt, tmax, nSources=nS, cells_per_level=2)
    if scheme == 'MLAA':
        return la.MLAA(dt, tmax, nSources=nS, N0=2, N1=3, N2=2, N3=2)
    return la.Liu(dt, tmax, nSources=nS, N1=2, N2=2, N3=2, W1=1, W2=2, W3=1)


def make2(h, scheme, dt, K, nS):
    la = h.gt.load_aggregation
    tmax = dt * K
    if scheme == 'ClaessonJaved':
        return la.ClaessonJaved(dt, tmax, nSources=nS, cells_per_level=3)
    if scheme == 'MLAA':
        return la.MLAA(dt, tmax, nSources=nS, N0=3, N1=2, N2=4, N3=3)
    return la.Liu(dt, tmax, nSources=nS, N1=3, N2=2, N3=3, W1=2, W2=1, W3=2)


def gvals(h, la, f, nS):
    times = la.get_times_for_simulation()
    nt = len(times)
    if nS == 1:
        return h.arr([f(0, 0, times[k], k) for k in range(nt)]), times
    return h.arr([[[f(i, j, times[k], k) for k in range(nt)]
                   for j in range(nS)] for i in range(nS)]), times


def simulate(h, la, loads, nS, dt):
    """loads[n][j] -> list over steps of flat lists of temperature changes"""
    out = []
    t = 0.0
    for q in loads:
        t = t + dt
        la.next_time_step(t)
        la.set_current_load(q[0] if nS == 1 else h.arr(q))
        T = h.np.reshape(la.temporal_superposition(), -1) if nS > 1 else \
            [h.np.reshape(la.temporal_superposition(), -1)[0]]
        out.append([T[i] for i in range(nS)])
    return out


def loads_of(h, n, nS, name='q'):
    return [[h.real('%s_%d_%d' % (name, s, j), -100., 100.)
             for j in range(nS)] for s in range(n)]


def ncells(h, la):
    return len(la.get_times_for_simulation())


FN = ['load_aggregation.ClaessonJaved', 'load_aggregation.MLAA',
      'load_aggregation.Liu', 'utilities.time_ClaessonJaved']
BND = ('real dt, slopes and loads symbolic; K = tmax/dt and aggregation '
       'parameters as in the configuration; every step of the history is '
       'asserted')


@harness('L01', functions=FN, bounds=BND,
         quick=[dict(scheme='ClaessonJaved', K=16, n=6, nS=1),
                dict(scheme='ClaessonJaved', K=30, n=7, nS=2),
                dict(scheme='MLAA', K=14, n=14, nS=1),
                dict(scheme='MLAA', K=13, n=13, nS=2),
                dict(scheme='Liu', K=20, n=20, nS=1),
                dict(scheme='Liu', K=19, n=19, nS=2),
                dict(scheme='MLAA', K=16, n=16, nS=1, alt=True),
                dict(scheme='Liu', K=44, n=44, nS=1, alt=True),
                dict(scheme='Liu', K=34, n=34, nS=1),
                dict(scheme='MLAA', K=28, n=28, nS=1)],
         thorough=[dict(scheme=s, K=K, n=min(K, N), nS=nS, alt=alt)
                   for s, K, N in (('ClaessonJaved', 60, 9),
                                   ('MLAA', 24, 24), ('Liu', 64, 64))
                   for nS in (1, 2, 3) for alt in (False, True)])
def heat_conserved(h, scheme, K, n, nS, alt=False):
    """with response factors linear in time, the temperature change equals
    slope x total heat injected so far"""
    dt = h.real('dt', 60., 1e5)
    la = (make2 if alt else make)(h, scheme, dt, K, nS)
    s = [[h.real('s_%d_%d' % (i, j), 0., 1.) for j in range(nS)]
         for i in range(nS)]
    g, times = gvals(h, la, lambda i, j, t, k: s[i][j] * t, nS)
    h.true('enough time values', len(times) >= 2)
    la.initialize(g)
    if scheme == 'ClaessonJaved':
        n = min(n, len(times))
    q = loads_of(h, n, nS)
    T = simulate(h, la, q, nS, dt)
    for m in range(n):
        for i in range(nS):
            ref = sum((s[i][j] * q[p][j] for p in range(m + 1)
                       for j in range(nS)), h.const(0.)) * dt
            h.eq('slope x total heat, step %d' % m, T[m][i], ref, tol=1e-9,
                 scale=1e3)


@harness('L02', functions=FN, bounds=BND,
         quick=[dict(scheme='ClaessonJaved', K=16, nS=1),
                dict(scheme='ClaessonJaved', K=16, nS=2, alt=True),
                dict(scheme='MLAA', K=9, nS=1),
                dict(scheme='MLAA', K=9, nS=2, alt=True),
                dict(scheme='Liu', K=9, nS=1),
                dict(scheme='Liu', K=9, nS=2, alt=True)])
def exact_before_aggregation(h, scheme, K, nS, alt=False):
    """no aggregation error while every load sits in its own cell: the
    temperature equals exact temporal superposition, for arbitrary factors"""
    dt = h.real('dt', 60., 1e5)
    la = (make2 if alt else make)(h, scheme, dt, K, nS)
    gg = {}

    def g0(i, j, t, k):
        gg[i, j, k] = h.real('g_%d_%d_%d' % (i, j, k), 0., 1.)
        return gg[i, j, k]
    g, times = gvals(h, la, g0, nS)
    la.initialize(g)
    n = {('ClaessonJaved', False): 2, ('ClaessonJaved', True): 3,
         ('MLAA', False): 4, ('MLAA', True): 4,
         ('Liu', False): 2, ('Liu', True): 4}[scheme, alt]
    if scheme == 'MLAA':
        n = 2 if not alt else 3
    q = loads_of(h, n, nS)
    T = simulate(h, la, q, nS, dt)
    for m in range(n):
        for i in range(nS):
            ref = h.const(0.)
            for p in range(m + 1):
                for j in range(nS):
                    dq = q[p][j] - (q[p - 1][j] if p else 0.)
                    ref = ref + gg[i, j, m - p] * dq
            h.eq('superposition, step %d' % m, T[m][i], ref, tol=1e-9,
                 scale=10.)


@harness('L02', functions=FN, bounds=BND,
         quick=[dict(scheme='MLAA', K=12, nS=2),
                dict(scheme='MLAA', K=15, nS=1, alt=True),
                dict(scheme='Liu', K=17, nS=2),
                dict(scheme='Liu', K=34, nS=1),
                dict(scheme='MLAA', K=28, nS=1),
                dict(scheme='Liu', K=44, nS=1, alt=True)])
def constant_load_exact(h, scheme, K, nS, alt=False):
    """a constant load gives exactly load x g at every step"""
    dt = h.real('dt', 60., 1e5)
    la = (make2 if alt else make)(h, scheme, dt, K, nS)
    gg = {}

    def g0(i, j, t, k):
        gg[i, j, k] = h.real('g_%d_%d_%d' % (i, j, k), 0., 1.)
        return gg[i, j, k]
    g, times = gvals(h, la, g0, nS)
    la.initialize(g)
    q = [h.real('q_%d' % j, -100., 100.) for j in range(nS)]
    T = simulate(h, la, [q] * K, nS, dt)
    for m in range(K):
        for i in range(nS):
            ref = sum((gg[i, j, m] * q[j] for j in range(nS)), h.const(0.))
            h.eq('g x q, step %d' % m, T[m][i], ref, tol=1e-9, scale=10.)


@harness('L02', functions=FN, bounds=BND + '; last load and the one before '
         'it, at every step',
         quick=[dict(scheme='ClaessonJaved', K=20, n=9, nS=1),
                dict(scheme='ClaessonJaved', K=20, n=6, nS=2, alt=True),
                dict(scheme='MLAA', K=14, n=14, nS=2),
                dict(scheme='MLAA', K=16, n=16, nS=1, alt=True),
                dict(scheme='Liu', K=16, n=16, nS=2),
                dict(scheme='Liu', K=30, n=30, nS=1, alt=True)])
def recent_loads_exact(h, scheme, K, n, nS, alt=False):
    """changing the load of the current step by d changes the temperature by
    exactly d x g(dt), at every step, whatever the history"""
    dt = h.real('dt', 60., 1e5)
    gg = {}

    def g0(i, j, t, k):
        if (i, j, k) not in gg:
            gg[i, j, k] = h.real('g_%d_%d_%d' % (i, j, k), 0., 1.)
        return gg[i, j, k]
    las = []
    for _ in range(2):
        la = (make2 if alt else make)(h, scheme, dt, K, nS)
        g, times = gvals(h, la, g0, nS)
        la.initialize(g)
        las.append(la)
    q = loads_of(h, n, nS)
    d = h.reals('d', nS, -10., 10.)
    la = las[0]
    t = 0.
    for m in range(n):
        t = t + dt
        la.next_time_step(t)
        la.set_current_load(q[m][0] if nS == 1 else h.arr(q[m]))
        T0 = h.np.reshape(h.arr(la.temporal_superposition()), -1)
        q2 = [q[m][j] + d[j] for j in range(nS)]
        la.set_current_load(q2[0] if nS == 1 else h.arr(q2))
        T1 = h.np.reshape(h.arr(la.temporal_superposition()), -1)
        la.set_current_load(q[m][0] if nS == 1 else h.arr(q[m]))
        T2 = h.np.reshape(h.arr(la.temporal_superposition()), -1)
        las[1].next_time_step(t)
        las[1].set_current_load(q[m][0] if nS == 1 else h.arr(q[m]))
        T3 = h.np.reshape(h.arr(las[1].temporal_superposition()), -1)
        for i in range(nS):
            h.eq('overwritten loads leave no trace, step %d' % m, T2[i],
                 T3[i], tol=1e-9, scale=100.)
            ref = sum((gg[i, j, 0] * d[j] for j in range(nS)), h.const(0.))
            h.eq('response to current load, step %d' % m, T1[i] - T0[i], ref,
                 tol=1e-8, scale=100.)
            h.eq('load can be overwritten, step %d' % m, T2[i], T0[i],
                 tol=1e-9, scale=100.)


@harness('L03', functions=FN, bounds=BND + '; load history is a unit pulse '
         'at a symbolic step',
         quick=[dict(scheme='ClaessonJaved', K=16, n=10),
                dict(scheme='ClaessonJaved', K=40, n=12, alt=True),
                dict(scheme='MLAA', K=13, n=13),
                dict(scheme='MLAA', K=15, n=15, alt=True),
                dict(scheme='Liu', K=18, n=18),
                dict(scheme='Liu', K=34, n=34),
                dict(scheme='Liu', K=26, n=26, alt=True)])
def pulse_response(h, scheme, K, n, alt=False):
    """a unit pulse never cools the ground and is never amplified: its
    response lies between 0 and the largest possible response"""
    dt = h.real('dt', 60., 1e5)
    la = (make2 if alt else make)(h, scheme, dt, K, 1)
    dg = {}

    def g0(i, j, t, k):
        dg[k] = h.real('dg_%d' % k, 0., 1., strict=False)
        return sum((dg[p] for p in range(k)), h.const(0.)) + dg[k]
    g, times = gvals(h, la, g0, 1)
    la.initialize(g)
    p = h.choice('pulse', list(range(n)))
    T = simulate(h, la, [[h.const(1. if m == p else 0.)] for m in range(n)],
                 1, dt)
    for m in range(n):
        if m < p:
            h.eq('no response before the pulse', T[m][0], 0., tol=1e-12)
        else:
            h.le('pulse response is not negative', 0., T[m][0], slack=1e-12)
            top = g[m] if scheme != 'ClaessonJaved' else g[len(times) - 1]
            h.le('pulse response is bounded', T[m][0], top, slack=1e-12)


@harness('L03', functions=FN, bounds=BND,
         quick=[dict(scheme='ClaessonJaved', K=16, n=8, nS=2),
                dict(scheme='ClaessonJaved', K=16, n=9, nS=1, alt=True),
                dict(scheme='MLAA', K=12, n=12, nS=2),
                dict(scheme='Liu', K=14, n=14, nS=2)])
def superposition(h, scheme, K, n, nS, alt=False):
    """temperatures are linear in the load history"""
    dt = h.real('dt', 60., 1e5)
    gg = {}

    def g0(i, j, t, k):
        if (i, j, k) not in gg:
            gg[i, j, k] = h.real('g_%d_%d_%d' % (i, j, k), 0., 1.)
        return gg[i, j, k]
    a = h.real('a', -2., 2.)
    q1 = loads_of(h, n, nS, 'q')
    q2 = [[h.real('r_%d_%d' % (m, j), -100., 100.) if m % 3 == 0 else
           h.const(7. * m) for j in range(nS)] for m in range(n)]
    q3 = [[a * q1[m][j] + q2[m][j] for j in range(nS)] for m in range(n)]
    Ts = []
    for q in (q1, q2, q3):
        la = (make2 if alt else make)(h, scheme, dt, K, nS)
        g, times = gvals(h, la, g0, nS)
        la.initialize(g)
        Ts.append(simulate(h, la, q, nS, dt))
    for m in range(n):
        for i in range(nS):
            h.eq('linear, step %d' % m, Ts[2][m][i],
                 a * Ts[0][m][i] + Ts[1][m][i], tol=1e-9, scale=100.)


@harness('L03', functions=FN, bounds='one source and one time step, whatever '
         'the response factors and load',
         quick=[dict(scheme=s, nS=n, shape=k) for s in SCHEMES
                for n, k in ((1, 1), (1, 3), (2, 3)) if (s, k) == (
                    'ClaessonJaved', 1) or k == 3])
def shapes(h, scheme, nS, shape):
    """one value per source; a number where factors have one dimension
    (method of Claesson and Javed)"""
    dt = h.real('dt', 60., 1e5)
    la = make(h, scheme, dt, 9, nS)
    nt = len(la.get_times_for_simulation())
    g = [h.real('g%d' % k, 0., 1.) for k in range(nt)]
    if shape == 1:
        la.initialize(h.arr(g))
    else:
        la.initialize(h.arr([[g] * nS] * nS))
    q = h.real('q', -100., 100.)
    for k in range(2):
        la.next_time_step(dt * (k + 1.))
        la.set_current_load(q if nS == 1 else h.arr([q] * nS))
        T = la.temporal_superposition()
        h.true('one value per source', int(h.np.size(T)) == nS)
        if scheme == 'ClaessonJaved':
            h.true('dimensions', h.np.ndim(T) == (0 if shape == 1 else 1))
