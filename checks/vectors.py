"""T01-T03: time vectors, segment ratios, error function integral."""
from engine.checks_util import harness

WIDTHS = ['ClaessonJaved', 'MarcottePasquier']


@harness('T01', functions=['utilities.time_ClaessonJaved',
                           'utilities.time_MarcottePasquier'],
         bounds='any time step; any tmax up to K time steps; cells per level '
         'or number of constant cells as in the configuration',
         quick=[dict(kind='ClaessonJaved', K=40, n=n) for n in (1, 2, 3, 5)] +
               [dict(kind='MarcottePasquier', K=40, n=n)
                for n in (0, 1, 3, 8)],
         thorough=[dict(kind=k, K=400, n=n) for k in WIDTHS
                   for n in (1, 2, 3, 4, 5, 6, 7, 12, 48)])
def doubling_times(h, kind, K, n):
    """the widths of the cells double as documented, and the last time is the
    first one to reach tmax"""
    dt = h.real('dt', 1e-3, 1e9, typ=(1., 1e5))
    k = h.real('steps', 0., K)
    tmax = dt * k
    u = h.gt.utilities
    if kind == 'ClaessonJaved':
        time = u.time_ClaessonJaved(dt, tmax, cells_per_level=n)
    else:
        time = u.time_MarcottePasquier(dt, tmax, non_expanding_cells=n)
    t = h.np.reshape(h.arr(time), -1)
    N = len(t)
    h.true('at least one time', N >= 1)
    done = h.const(0.)
    for i in range(N):
        if kind == 'ClaessonJaved':
            w = 2 ** (i // n)
        else:
            w = 2 ** max(0, i + 1 - n)
        h.eq('width of the cells', (t[i] - done) / dt, w)
        h.lt('increasing', done, t[i])
        done = t[i]
    h.le('reaches tmax', tmax, t[N - 1])
    if N > 1:
        h.lt('not before the last time', t[N - 2], tmax)


@harness('T01', functions=['utilities.time_geometric'],
         bounds='any time step and tmax; number of times as in the '
         'configuration; the state of the fixed point iteration before its '
         'last two iterations is arbitrary',
         assumes=['the fixed point iteration of time_geometric ends'],
         quick=[dict(Nt=n) for n in (1, 2, 3, 4)],
         thorough=[dict(Nt=n) for n in (1, 2, 3, 4, 5, 6, 8)])
def geometric_times(h, Nt):
    """Nt increasing times, from dt to tmax, with widths that increase by a
    constant factor"""
    dt = h.real('dt', 1e-3, 1e9, typ=(1., 1e5))
    end = None
    if h.flag('expanding'):
        r = h.real('r', 1.01, 4., typ=(1.05, 2.)) if Nt > 1 else h.const(1.)
        if Nt > 1:
            tot = h.const(0.)
            for i in range(Nt):
                tot = tot + r ** i
        else:
            tot = h.real('tot', 1.01, 9.)
        tmax = dt * tot
        if Nt == 1:
            return
        end = h.fixed_point(r, Nt)
    else:
        r = h.const(1.)
        tmax = dt * h.real('steps', 0., Nt)
    time = h.gt.utilities.time_geometric(dt, tmax, Nt)
    if end:
        end()
    t = h.np.reshape(h.arr(time), -1)
    h.true('number of times', len(t) == Nt)
    done = h.const(0.)
    for i in range(Nt):
        h.eq('width of the cells', (t[i] - done) / dt, r ** i, tol=1e-6)
        done = t[i]
    h.le('reaches tmax', tmax, t[Nt - 1] * (1 + 1e-9))


@harness('T02', functions=['utilities.segment_ratios'],
         bounds='any growth factor of the segments in 0.2 to 6 (any '
         'end_length_ratio that allows it); number of segments as in the '
         'configuration; roots of the polynomial in any order',
         assumes=['roots() returns the roots of the polynomial given to it, '
                  'and the growth factor and 1 are the only positive ones'],
         quick=[dict(n=n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9)],
         thorough=[dict(n=n) for n in range(1, 21)])
def segment_ratios(h, n):
    """ratios are positive, symmetric, sum to 1, begin with end_length_ratio
    and grow by a constant factor towards the middle"""
    u = h.gt.utilities
    if n <= 2:
        e = h.real('e', 0.01, 0.49)
    elif n == 3:
        e = h.real('e', 0.001, 0.499)
        x = (1. - 2. * e) / e
    else:
        x = h.real('growth', 0.2, 6., typ=(0.5, 3.))
        m = n // 2
        s = h.const(0.)
        for i in range(m):
            s = s + 2. * x ** i
        if n % 2:
            s = s + x ** m
        e = 1. / s
        h.assume(h.np.abs(1. - n * e) >= 2e-6)
        h.roots([x, h.const(1.)], 'root')
    z = u.segment_ratios(n, end_length_ratio=e)
    z = h.np.reshape(h.arr(z), -1)
    h.true('number of ratios', len(z) == n)
    tot = h.const(0.)
    for i in range(n):
        h.lt('positive', 0., z[i])
        h.eq('symmetric', z[i], z[n - 1 - i])
        tot = tot + z[i]
    h.eq('sum of ratios', tot, 1., tol=1e-6)
    if n >= 3:
        h.eq('end segments', z[0], e)
        for i in range((n - 1) // 2):
            h.eq('growth', z[i + 1] / z[i], x, tol=1e-5)
    else:
        h.eq('equal segments', z[0], h.const(1.) / n)


@harness('T02', functions=['utilities.segment_ratios'],
         bounds='any end_length_ratio within 1e-6 of 1/n',
         quick=[dict(n=n) for n in (4, 5, 8)],
         thorough=[dict(n=n) for n in range(4, 16)])
def equal_ratios(h, n):
    """segments are uniform if end_length_ratio is 1/nSegments"""
    d = h.real('d', -0.9e-6, 0.9e-6)
    z = h.gt.utilities.segment_ratios(n, end_length_ratio=(1. + d) / n)
    z = h.np.reshape(h.arr(z), -1)
    h.true('number of ratios', len(z) == n)
    tot = h.const(0.)
    for i in range(n):
        h.eq('uniform', z[i], h.const(1.) / n, tol=2e-6)
        tot = tot + z[i]
    h.eq('sum of ratios', tot, 1.)


@harness('T03', functions=['utilities.erfint'],
         bounds='any real argument',
         assumes=['derivative of erf(x) is 2/sqrt(pi) exp(-x^2)'])
def erfint_is_integral(h):
    """the derivative of erfint is erf, it is even, and erfint(0) = 0"""
    x = h.real('x', -20., 20., typ=(-3., 3.))
    f = h.gt.utilities.erfint
    (d,), _ = h.deriv(lambda v: [f(v)], x, step=1e-4)
    h.eq('derivative', d, h.erf(x), tol=1e-6)
    h.eq('even', f(-x), f(x))
    h.eq('zero at the origin', f(h.const(0.)), 0.)
