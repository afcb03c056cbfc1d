"""P07-P10: geometry, thermal resistances, convection."""
from engine.checks_util import harness


def place(h, n, lo=-0.1, hi=0.1):
    out = []
    for i in range(n):
        out.append((h.real('x%d' % i, lo, hi, typ=(-0.05, 0.05)),
                    h.real('y%d' % i, lo, hi, typ=(-0.05, 0.05))))
    return out


def inside(h, n, name=''):
    """n pipes that do not overlap in a borehole: (pos, r_out, r_b)"""
    r_b = h.real('r_b', 0.05, 0.2, typ=(0.06, 0.1))
    r = [h.real('r%d' % i, 0.005, 0.05, typ=(0.01, 0.02)) for i in range(n)]
    pos = []
    for i in range(n):
        x = h.real('x%d' % i, -0.2, 0.2, typ=(-0.04, 0.04))
        y = h.real('y%d' % i, -0.2, 0.2, typ=(-0.04, 0.04))
        h.assume(x * x + y * y < (r_b - r[i]) * (r_b - r[i]))
        h.assume(r_b > r[i])
        for j in range(i):
            d2 = (x - pos[j][0]) * (x - pos[j][0]) + \
                (y - pos[j][1]) * (y - pos[j][1])
            h.assume(d2 > (r[i] + r[j]) * (r[i] + r[j]))
        pos.append((x, y))
    return pos, r, r_b


def media(h):
    return (h.real('k_s', 0.2, 8., typ=(1., 4.)),
            h.real('k_g', 0.2, 8., typ=(0.5, 3.)))


RES = ['pipes.thermal_resistances', 'pipes.multipole']


@harness('P08', functions=RES, bounds='any positions, radii, conductivities '
         'and fluid to pipe resistances; line sources (J=0); up to three '
         'pipes',
         quick=[dict(n=1), dict(n=2), dict(n=3)])
def line_sources(h, n):
    """J=0: both functions give the same resistances, which are symmetric"""
    pos, r, r_b = inside(h, n)
    k_s, k_g = media(h)
    R_fp = h.arr([h.real('R_fp%d' % i, 0.01, 1., typ=(0.05, 0.3))
                  for i in range(n)])
    gp = h.gt.pipes
    R, Rd = gp.thermal_resistances(pos, h.arr(r), r_b, k_s, k_g, R_fp, J=0)
    q = [h.real('q%d' % i, -100., 100.) for i in range(n)]
    T_b = h.real('T_b', -10., 30.)
    T_f = gp.multipole(pos, h.arr(r), r_b, k_s, k_g, R_fp, T_b, h.arr(q),
                       0)[0]
    for i in range(n):
        ref = T_b
        for j in range(n):
            h.eq('symmetric', R[i, j], R[j, i])
            ref = ref + R[i, j] * q[j]
        h.eq('fluid temperatures', T_f[i], ref, tol=1e-6)


def forget(h, n):
    """a call for another number of pipes, so that nothing is remembered"""
    m = 2 if n == 1 else 1
    h.gt.pipes.thermal_resistances([(0.03 * i, 0.) for i in range(m)], 0.01,
                                   0.075, 2., 1., 0.1, J=0)


def moved(h, pos, r_b, how):
    """(positions, factor on lengths)"""
    if how == 'rotation':
        a = h.real('angle', -3., 3.)
        c, s = h.cos(a), h.sin(a)
        return [(c * x - s * y, s * x + c * y) for x, y in pos], 1.
    if how == 'mirror':
        return [(-x, y) for x, y in pos], 1.
    if how == 'scale':
        k = h.real('scale', 0.2, 5.)
        return [(k * x, k * y) for x, y in pos], k
    return list(pos), 1.


@harness('P08', functions=RES[:1], bounds='any positions, radii, '
         'conductivities, fluid to pipe resistances, angles and factors; '
         'line sources (J=0); up to three pipes',
         quick=[dict(n=n, how=w) for n, w in (
             (1, 'rotation'), (2, 'rotation'), (2, 'mirror'), (1, 'scale'),
             (2, 'scale'), (2, 'order'), (3, 'order'))],
         thorough=[dict(n=3, how=w) for w in ('mirror', 'scale')])
def motions(h, n, how):
    """resistances depend on the shape of the section only, and follow the
    order of the pipes"""
    pos, r, r_b = inside(h, n)
    k_s, k_g = media(h)
    R_fp = [h.real('R_fp%d' % i, 0.01, 1., typ=(0.05, 0.3))
            for i in range(n)]
    new, k = moved(h, pos, r_b, how)
    order = list(range(n))[::-1] if how == 'order' else list(range(n))
    gp = h.gt.pipes
    R, Rd = gp.thermal_resistances(pos, h.arr(r), r_b, k_s, k_g,
                                   h.arr(R_fp), J=0)
    R, Rd = R * 1., Rd * 1.
    forget(h, n)
    S, Sd = gp.thermal_resistances(
        [new[i] for i in order], h.arr([r[i] * k for i in order]), r_b * k,
        k_s, k_g, h.arr([R_fp[i] for i in order]), J=0)
    for a, i in enumerate(order):
        for b, j in enumerate(order):
            h.eq('resistance', S[a, b], R[i, j], tol=1e-6)
            if n < 3 and how == 'order':
                h.eq('delta circuit', Sd[a, b], Rd[i, j], tol=1e-6)


def any_multipole(h, n):
    """replaces the multipole expansion by arbitrary resistances"""
    M = [[None] * n for i in range(n)]
    for i in range(n):
        for j in range(i + 1):
            M[i][j] = M[j][i] = h.real(
                'M_%d_%d' % (i, j), 0.1 if i == j else -0.08,
                1. if i == j else 0.08)

    def multipole(pos, r_out, r_b, k_s, k_g, R_fp, T_b, q_p, J, *a, **k):
        h.true('order of expansion', J == 2)
        return h.arr([T_b + sum(M[i][j] * q_p[j] for j in range(n))
                      for i in range(n)]), None, 1, 0.
    h.patch(h.gt.pipes, 'multipole', multipole)
    return M


@harness('P08', functions=RES[:1], assumes=[
    'multipole returns fluid temperatures that are linear in the heat '
    'transfer rates'], bounds='any resistances; up to three pipes',
         quick=[dict(n=1), dict(n=2), dict(n=3)])
def delta_circuit(h, n):
    """for any fluid and wall temperatures, the heat transfer rates of the
    delta circuit are those that cause these temperatures"""
    forget(h, n)
    M = any_multipole(h, n)
    pos = [(0.01 * i, 0.) for i in range(n)]
    R, Rd = h.gt.pipes.thermal_resistances(pos, 0.02, 0.075, 2., 1., 0.1,
                                           J=2)
    for i in range(n):
        for j in range(n):
            h.eq('resistances', R[i, j], M[i][j])
    q = [h.real('q%d' % i, -100., 100.) for i in range(n)]
    T_b = h.real('T_b', -10., 30.)
    T = [T_b + sum((M[i][j] * q[j] for j in range(n)), h.const(0.))
         for i in range(n)]
    for i in range(n):
        h.eq('heat transfer', (T[i] - T_b) / Rd[i, i] + sum(
            ((T[i] - T[j]) / Rd[i, j] for j in range(n) if j != i),
            h.const(0.)), q[i], tol=1e-6)


@harness('P08', functions=RES[1:], bounds='any positions, radii, '
         'conductivities, heat transfer rates and resistances of one pipe '
         '(positions and radii of two pipes are numbers); line sources '
         '(J=0); any position in the pipe, grout, ground and at the wall',
         quick=[dict(n=n, where=w) for n in (1, 2)
                for w in ('grout', 'wall', 'ground', 'pipe')])
def temperature_field(h, n, where):
    """temperatures of line sources in a grout cylinder surrounded by ground"""
    if n == 1:
        pos, r, r_b = inside(h, n)
    else:
        pos, r, r_b = [(-0.03, 0.), (0.03, 0.01)], [0.012, 0.015], \
            h.const(0.075)
    k_s, k_g = media(h)
    R_fp = [h.real('R_fp%d' % i, 0.01, 1., typ=(0.05, 0.3))
            for i in range(n)]
    q = [h.real('q%d' % i, -100., 100.) for i in range(n)]
    T_b = h.real('T_b', -10., 30.)
    if where == 'pipe':
        k = n - 1
        a = h.real('a', -0.7, 0.7)
        b = h.real('b', -0.7, 0.7)
        x, y = pos[k][0] + a * r[k], pos[k][1] + b * r[k]
    elif where == 'wall':
        s = h.real('s', -3., 3.)
        x = r_b * (1. - s * s) / (1. + s * s)
        y = r_b * 2. * s / (1. + s * s)
    else:
        x = h.real('x', -2., 2., typ=(-0.04, 0.04) if where == 'grout' else
                   (-0.3, 0.3))
        y = h.real('y', -2., 2., typ=(-0.04, 0.04) if where == 'grout' else
                   (-0.3, 0.3))
        if where == 'grout':
            h.assume(x * x + y * y < r_b * r_b)
            for (u, v), c in zip(pos, r):
                h.assume((x - u) * (x - u) + (y - v) * (y - v) > c * c)
        else:
            h.assume(x * x + y * y > r_b * r_b)
    T_f, T, it, eps = h.gt.pipes.multipole(
        pos, h.arr(r), r_b, k_s, k_g, h.arr(R_fp), T_b, h.arr(q), 0,
        x_T=h.arr([x]), y_T=h.arr([y]))
    h.true('number', len(T) == 1)
    if where == 'pipe':
        h.eq('temperature', T[0], T_f[k])
        return
    ref = T_b
    for (u, v), qi in zip(pos, q):
        d = h.log(((x - u) * (x - u) + (y - v) * (y - v)) / (r_b * r_b)) / 2.
        if where == 'ground':
            z = h.log((x * x + y * y) / (r_b * r_b)) / 2.
            ref = ref - qi / (h.pi * (k_g + k_s)) * d + qi * (
                1. / (h.pi * (k_g + k_s)) - 1. / (2. * h.pi * k_s)) * z
        elif where == 'wall':
            ref = ref - qi / (h.pi * (k_g + k_s)) * d
        else:
            # image of the line source with respect to the wall
            m = (r_b * r_b - u * x - v * y) * (r_b * r_b - u * x - v * y) + \
                (v * x - u * y) * (v * x - u * y)
            ref = ref - qi / (2. * h.pi * k_g) * (d + (k_g - k_s) / (
                k_g + k_s) * h.log(m / (r_b * r_b) / (r_b * r_b)) / 2.)
    h.eq('temperature', T[0], ref, tol=1e-6)


def unchecked_convergence(h):
    """the size of changes, which is not used as eps is negative, is not
    evaluated"""
    if not h.symbolic:
        return
    np = h.gt.pipes.np

    class Np:
        def __getattr__(self, n):
            return getattr(np, n)

    for n in ('abs', 'absolute'):
        f = getattr(np, n)

        def g(x, *a, f=f, **k):
            if h.np.size(x) and any(
                    hasattr(v, 'r') and not (v.real.r.is_const() and
                                             v.imag.r.is_const())
                    for v in h.np.reshape(x, -1)):
                return h.np.ones(h.np.shape(x))
            return f(x, *a, **k)
        setattr(Np, n, staticmethod(g))
    h.patch(h.gt.pipes, 'np', Np())


LAY = [[(0.02, 0.01)], [(-0.03, 0.), (0.03, 0.01)],
       [(-0.03, 0.), (0.03, 0.01), (0.01, -0.04)]]
RAD = [0.012, 0.015, 0.01]


@harness('P08', functions=RES[1:] + ['pipes._F_mk'], bounds='any '
         'conductivities, fluid to pipe resistances and heat transfer rates; '
         'numbers for positions and radii; multipoles up to order 2 (3) '
         'after up to 2 (3) iterations; up to 3 pipes',
         opts=dict(noise=3e-7),
         quick=[dict(n=n, J=J, it=it, how=w) for n, J, it in (
             (1, 1, 1), (1, 2, 2), (2, 1, 1), (2, 2, 1), (2, 1, 2),
             (2, 2, 2), (2, 3, 1), (3, 1, 1))
                for w in ('superposition', 'order', 'mirror', 'turn')
                if (n, w) != (1, 'order')],
         thorough=[dict(n=n, J=J, it=it, how=w) for n, J, it in (
             (1, 3, 3), (2, 2, 3), (2, 3, 2), (3, 2, 1), (3, 1, 2),
             (3, 2, 2))
                   for w in ('superposition', 'order', 'mirror', 'turn')
                   if (n, w) != (1, 'order')])
def multipoles(h, n, J, it, how):
    """after any number of iterations fluid temperatures are linear in heat
    transfer rates, with symmetric resistances, and depend on the shape of the
    section only"""
    pos, r, r_b = LAY[n - 1], RAD[:n], h.const(0.075)
    k_s, k_g = media(h)
    R_fp = [h.real('R_fp%d' % i, 0.01, 1., typ=(0.05, 0.3))
            for i in range(n)]
    T_b = h.real('T_b', -10., 30.)
    unchecked_convergence(h)

    def run(pos, r, R, q, T_b):
        return h.gt.pipes.multipole(
            [(h.const(x), h.const(y)) for x, y in pos],
            h.arr([h.const(x) for x in r]), r_b, k_s, k_g, h.arr(R), T_b,
            h.arr(q), J, eps=-1., it_max=it)[0]
    zero = h.const(0.)
    if how == 'superposition':
        q = [h.real('q%d' % i, -100., 100.) for i in range(n)]
        T = run(pos, r, R_fp, q, T_b)
        M = [run(pos, r, R_fp, [h.const(1.) if i == j else zero
                                for i in range(n)], zero) for j in range(n)]
        for i in range(n):
            h.eq('superposition', T[i], T_b + sum(
                (M[j][i] * q[j] for j in range(n)), zero), tol=1e-6)
            for j in range(i):
                h.eq('symmetric', M[i][j], M[j][i], tol=1e-6)
        return
    q = [h.const(1. + i) for i in range(n)]
    a = run(pos, r, R_fp, q, T_b)
    ix = list(range(n))
    new = pos
    if how == 'order':
        ix = ix[::-1]
    elif how == 'mirror':
        new = [(-x, y) for x, y in pos]
    else:
        new = [(-y, x) for x, y in pos]
    b = run([new[i] for i in ix], [r[i] for i in ix], [R_fp[i] for i in ix],
            [q[i] for i in ix], T_b)
    for k, i in enumerate(ix):
        h.eq('fluid temperature', b[k], a[i], tol=1e-6)


@harness('P08', functions=RES[:1] + [
    'pipes._compare_thermal_resistances_inputs'],
         bounds='two pipes at positions, radii, conductivities and '
         'resistances of two calls that are equal or differ by at least 0.1 '
         '% (any one of them); results and inputs modified between calls',
         quick=[dict(what=w) for w in ('x', 'y', 'r_out', 'r_b', 'k_s',
                                       'k_g', 'R_fp', 'J', 'same',
                                       'order of pipes', 'order of R_fp',
                                       'order of r_out')] +
               [dict(what=w, inplace=True) for w in (
                   'x', 'r_out', 'R_fp', 'result', 'delta')])
def calls(h, what, inplace=False):
    """resistances do not depend on earlier calls, nor on what was done with
    what they were given or have returned"""
    v = dict(r_b=h.real('r_b', 0.07, 0.2), k_s=h.real('k_s', 0.2, 8.),
             k_g=h.real('k_g', 0.2, 8.), J=0)
    x = h.real('x', 0.03, 0.04)
    y = h.real('y', 0.001, 0.005)
    v['pos'] = [(-0.03, 0.), (x, y)]
    r2 = h.real('r_2', 0.01, 0.012)
    R2 = h.real('R_2', 0.05, 0.3)
    v['r_out'] = h.arr([0.011, r2])
    v['R_fp'] = h.arr([0.1, R2])
    f = h.gt.pipes.thermal_resistances

    def call(w):
        return f(w['pos'], w['r_out'], w['r_b'], w['k_s'], w['k_g'],
                 w['R_fp'], J=w['J'])

    def copies(w):
        return dict(w, pos=list(w['pos']), r_out=h.arr(list(w['r_out'])),
                    R_fp=h.arr(list(w['R_fp'])))
    k = h.real('factor', 1.001, 1.1)
    if h.flag('smaller'):
        k = 1. / k
    w = copies(v)
    if what == 'x':
        w['pos'][1] = (x * k, y)
    elif what == 'y':
        w['pos'][1] = (x, y * k)
    elif what == 'r_out':
        w['r_out'][1] = r2 * k
    elif what == 'R_fp':
        w['R_fp'][1] = R2 * k
    elif what == 'J':
        w['J'] = 2
        any_multipole(h, 2)
    elif what in ('r_b', 'k_s', 'k_g'):
        w[what] = v[what] * k
    elif what == 'order of pipes':
        w['pos'] = w['pos'][::-1]
    elif what == 'order of R_fp':
        h.assume(abs(R2 - 0.1) > 0.001)
        w['R_fp'] = h.arr([R2, 0.1])
    elif what == 'order of r_out':
        h.assume(abs(r2 - 0.011) > 0.0001)
        w['r_out'] = h.arr([r2, 0.011])
    forget(h, 2)
    ref = [[m[i, j] for i in range(2) for j in range(2)]
           for m in call(copies(w))]
    forget(h, 2)
    first = copies(v)
    R, Rd = call(first)
    if inplace:
        if what == 'x':
            first['pos'][1] = w['pos'][1]
        elif what in ('r_out', 'R_fp'):
            first[what][1] = w[what][1]
        elif what == 'result':
            R[0, 0] = R[0, 0] + 1.
        else:
            Rd[0, 0] = Rd[0, 0] + 1.
        w = first
    out = call(w)
    for a, b in zip(ref, out):
        b = [b[i, j] for i in range(2) for j in range(2)]
        for s, t in zip(a, b):
            h.eq('same resistances', s, t, tol=1e-9)


CHECK = ['pipes._BasePipe._check_geometry', 'pipes.Coaxial._check_geometry']


@harness('P07', functions=CHECK, bounds='any positions, radii, '
         'conductivities and resistances, of either sign; two or four pipes '
         '(where there are four, positions of two are numbers), coaxial pipes '
         'with either pipe first',
         quick=[dict(kind=k, part=p) for k in ('single', 'double', 'indep')
                for p in ('positions', 'properties')] +
               [dict(kind=k, part=p) for k in ('coax_in', 'coax_out')
                for p in ('positions', 'radii', 'properties')])
def geometry(h, kind, part):
    """pipes are accepted if and only if they are inside of the borehole, do
    not overlap and have the properties of pipes"""
    gp = h.gt.pipes
    h.patch(gp, 'thermal_resistances', lambda *a, **k: (
        h.np.eye(len(a[0])), h.np.eye(len(a[0])) + 1.))
    coax = kind.startswith('coax')
    n = 1 if coax else 2 if kind == 'single' else 4
    r_b = h.const(0.075)
    pos = [(-0.04, 0.01), (0.04, 0.01), (0., -0.05), (0., 0.05)][:n]
    pos = [(h.const(x), h.const(y)) for x, y in pos]
    k_s, k_g, R_fp, R_ff, J = [h.const(v) for v in (2., 1., 0.1, 0.2, 2.)]
    if coax:
        pos = [(h.const(0.), h.const(0.))]
        inner = [h.const(0.02), h.const(0.025)]
        outer = [h.const(0.05), h.const(0.06)]
    else:
        inner = outer = [h.const(0.01), h.const(0.012)]
    ok = []

    def need(c):
        ok.append(c)
    if part == 'positions':
        r_b = h.real('r_b', 0.05, 0.1)
        k = 1 if not coax else 0
        pos[k] = (h.real('x', -0.1, 0.1), h.real('y', -0.1, 0.1))
        if coax:
            outer = [outer[0], h.real('r_oo', 0.051, 0.1)]
        else:
            inner = outer = [inner[0], h.real('r_out', 0.011, 0.03)]
    elif part == 'radii':
        inner = [h.real('r_ii', -0.01, 0.03), h.real('r_io', 0.001, 0.04)]
        outer = [h.real('r_oi', 0.01, 0.06), h.real('r_oo', 0.03, 0.074)]
        # the outer pipe is the one of larger outer radius
        h.assume(inner[1] < outer[1])
    else:
        k_s = h.real('k_s', -1., 5.)
        k_g = h.real('k_g', -1., 5.)
        R_fp = h.real('R_fp', -1., 1.)
        R_ff = h.real('R_ff', -1., 1.)
        J = h.choice('J', [-1, 0, 2])
        if not coax:
            inner = outer = [h.real('r_in', -0.01, 0.02),
                             h.real('r_out', 0.0, 0.012)]
    for c in (k_s, k_g, R_fp, inner[0]):
        need(c > 0.)
    need(J >= 0)
    need(inner[1] > inner[0])
    ro = outer[1]
    if coax:
        need(R_ff >= 0.)
        need(outer[1] > outer[0])
        need(outer[0] > inner[1])
    for i, (x, y) in enumerate(pos):
        need(r_b >= ro)
        if r_b >= ro:
            need(x * x + y * y <= (r_b - ro) * (r_b - ro))
        for u, v in pos[:i]:
            need((x - u) * (x - u) + (y - v) * (y - v) >= 4. * ro * ro)
    good = True
    for c in ok:
        if not c:
            good = False
            break
    b = h.gt.boreholes.Borehole(100., 4., r_b, 0., 0.)

    def make():
        if coax:
            r = [outer, inner] if kind == 'coax_in' else [inner, outer]
            return gp.Coaxial(pos, h.arr([r[0][0], r[1][0]]),
                              h.arr([r[0][1], r[1][1]]), b, k_s, k_g, R_ff,
                              R_fp, J=J)
        a = (pos, inner[0], inner[1], b, k_s, k_g, R_fp)
        if kind == 'single':
            return gp.SingleUTube(*a, J=J)
        if kind == 'double':
            return gp.MultipleUTube(*a, 2, J=J)
        return gp.IndependentMultipleUTube(*a, 2, J=J)
    p, err = h.attempt(ValueError, make)
    h.true('accepted if and only if valid', (err is None) == good)


CONV = ['pipes.convective_heat_transfer_coefficient_circular_pipe',
        'pipes.convective_heat_transfer_coefficient_concentric_annulus',
        'pipes._Nusselt_number_turbulent_flow']


def liquid(h):
    return (h.real('mu', 1e-5, 1., typ=(5e-4, 5e-3)),
            h.real('rho', 100., 2000., typ=(900., 1100.)),
            h.real('k', 0.01, 5., typ=(0.3, 0.7)),
            h.real('cp', 100., 1e4, typ=(3000., 4500.)),
            h.real('epsilon', 1e-9, 1e-2, typ=(1e-6, 1e-4)))


def friction(h):
    """replaces the friction factor by an arbitrary function of its arguments,
    the same for both directions of flow"""
    gp = h.gt.pipes
    h.opaque('pipes', 'fluid_friction_factor_circular_pipe', pos=True)
    one = gp.fluid_friction_factor_circular_pipe

    def f(m_flow_pipe, r_in, mu_f, rho_f, epsilon):
        return one(abs(m_flow_pipe), r_in, mu_f, rho_f, epsilon)
    h.patch(gp, 'fluid_friction_factor_circular_pipe', f)
    return f


def gnielinski(h, f, Re, Pr):
    return 0.125 * f * (Re - 1000.) * Pr / (
        1. + 12.7 * h.sqrt(0.125 * f) * (Pr ** h.frac(2, 3) - 1.))


def nusselt(h, Re, Pr, f, lam):
    """laminar up to 2300, Gnielinski from 4000, linear between"""
    if Re <= 2300.:
        return lam
    if Re >= 4000.:
        return [gnielinski(h, f, Re, Pr)] * len(lam)
    t = gnielinski(h, f, h.const(4000.), Pr)
    w = (Re - 2300.) / 1700.
    return [v + w * (t - v) for v in lam]


@harness('P09', functions=CONV, bounds='any flow rate of either sign, radii, '
         'roughness and properties of the fluid; friction factors are any '
         'function of their arguments',
         quick=[dict(section='pipe'), dict(section='annulus')])
def convection(h, section):
    """heat transfer coefficients follow from the Reynolds and Prandtl
    numbers"""
    mu, rho, k, cp, eps = liquid(h)
    f = friction(h)
    m = h.real('m', 1e-6, 100., typ=(0.01, 1.))
    s = h.choice('s', [1., -1.])
    Pr = cp * mu / k
    gp = h.gt.pipes
    # where the Gnielinski correlation is valid
    h.assume(Pr >= 0.5)
    h.assume(Pr <= 2000.)
    if section == 'pipe':
        r = h.real('r', 1e-3, 1., typ=(0.01, 0.02))
        Re = 2. * m / (h.pi * r * mu)
        h.assume(Re < 5e6)
        out = [gp.convective_heat_transfer_coefficient_circular_pipe(
            s * m, r, mu, rho, k, cp, eps)]
        ref = nusselt(h, Re, Pr, f(m, r, mu, rho, eps), [3.66])
        D = 2. * r
    else:
        r = h.real('r', 1e-3, 1., typ=(0.01, 0.02))
        R = h.real('R', 1e-3, 1., typ=(0.03, 0.05))
        h.assume(r < R)
        Re = 2. * m / (h.pi * (r + R) * mu)
        h.assume(Re < 5e6)
        out = gp.convective_heat_transfer_coefficient_concentric_annulus(
            s * m, r, R, mu, rho, k, cp, eps)
        q = r / R
        ref = nusselt(h, Re, Pr, f(m, R - r, mu, rho, eps),
                      [3.66 + 1.2 * q ** h.frac(-4, 5), 3.66 + 1.2 * h.sqrt(q)])
        D = 2. * (R - r)
    h.true('coefficients', len(out) == len(ref))
    for a, b in zip(out, ref):
        h.eq('heat transfer coefficient', a * D / k, b, tol=1e-6)


@harness('P09', functions=['pipes.fluid_friction_factor_circular_pipe'],
         bounds='any flow rate, radius, roughness and viscosity; the '
         'iterations for turbulent flow end after at most as many as in the '
         'configuration, for one radius',
         quick=[dict(flow='laminar')] + [
             dict(flow='turbulent', n=n) for n in (2, 4)])
def friction_factor(h, flow, n=0):
    """64 / Re in laminar flow, and else a solution of the Colebrook-White
    equation; the direction of flow does not matter"""
    f = h.gt.pipes.fluid_friction_factor_circular_pipe
    m = h.real('m', 1e-6, 100., typ=(0.01, 1.))
    rho = h.real('rho', 100., 2000., typ=(900., 1100.))
    if flow == 'laminar':
        s = h.choice('s', [1., -1.])
        mu = h.real('mu', 1e-5, 1., typ=(5e-4, 5e-3))
        r = h.real('r', 1e-3, 1., typ=(0.01, 0.02))
        eps = h.real('epsilon', 1e-9, 1e-2, typ=(1e-6, 1e-4))
        Re = 2. * m / (h.pi * r * mu)
        h.assume(Re < 2300.)
        h.eq('laminar flow', f(s * m, r, mu, rho, eps) * Re, 64.)
        return
    Re = h.real('Re', 2300., 1e8, typ=(3e3, 1e6), strict=False)
    E = h.real('E', 1e-9, 0.05, typ=(1e-5, 1e-2))
    r, mu = h.const(0.02), h.const(1e-3)
    h.bound_decisions(2 + n)
    v = f(-Re * h.pi * r * mu / 2., r, mu, rho, E * 2. * r)
    h.bound_decisions(0)
    h.lt('positive', 0., v)
    a = 1. / h.sqrt(v)
    b = -2. * h.log(E / 3.7 + 2.51 * a / Re) / h.log(h.const(10.))
    h.log_lemmas()
    h.le('Colebrook-White', abs(a - b), 2e-6 * (1. + a))


SERIES = ['pipes.fluid_to_pipe_thermal_resistance',
          'pipes.fluid_to_fluid_thermal_resistance',
          'pipes.conduction_thermal_resistance_circular_pipe']


class Liquid:
    pass


@harness('P10', functions=SERIES, bounds='any flow rate, radii, '
         'conductivities and properties of the fluid; convective heat '
         'transfer coefficients are any function of their arguments',
         quick=[dict(kind=k, seq=s) for k in (
             'SINGLE_UTUBE', 'DOUBLE_UTUBE_SERIES', 'DOUBLE_UTUBE_PARALLEL',
             'COAXIAL_ANNULAR_IN', 'COAXIAL_ANNULAR_OUT')
             for s in ('tuple', 'array')])
def series(h, kind, seq):
    """the resistances are those of the layers in series between the fluid and
    the outer wall of the pipe, or between the fluids of a coaxial pipe"""
    gp = h.gt.pipes
    gp_real = {}
    for name in ('convective_heat_transfer_coefficient_circular_pipe',
                 'fluid_friction_factor_circular_pipe'):
        h.opaque('pipes', name, pos=True)
        gp_real[name] = getattr(gp, name)
    circ = gp_real['convective_heat_transfer_coefficient_circular_pipe']
    annulus = gp.convective_heat_transfer_coefficient_concentric_annulus
    mu, rho, k, cp, eps = liquid(h)
    fluid = Liquid()
    fluid.mu, fluid.rho, fluid.k, fluid.cp = mu, rho, k, cp
    # a flow regime for the annulus
    h.assume(cp * mu / k >= 0.5)
    h.assume(cp * mu / k <= 2000.)
    m = h.real('m', 1e-6, 100., typ=(0.01, 1.))
    t = gp.PipeType[kind]
    pi = h.pi
    if kind.startswith('COAXIAL'):
        # inner and outer radii of the inner and of the outer pipe
        a = h.real('a', 1e-3, 1., typ=(0.01, 0.02))
        b = h.real('b', 1e-3, 1., typ=(0.021, 0.025))
        c = h.real('c', 1e-3, 1., typ=(0.03, 0.04))
        d = h.real('d', 1e-3, 1., typ=(0.041, 0.05))
        h.assume(a < b)
        h.assume(b < c)
        h.assume(c < d)
        Re = 2. * m / (pi * (b + c) * mu)
        h.assume(Re < 5e6)
        k_i = h.real('k_i', 0.01, 500., typ=(0.3, 0.5))
        k_o = h.real('k_o', 0.01, 500., typ=(0.3, 0.5))
        rows = ((a, c), (b, d), (k_i, k_o))
        if kind == 'COAXIAL_ANNULAR_IN':
            rows = tuple(x[::-1] for x in rows)
        r_in, r_out, k_p = [h.arr(list(x)) if seq == 'array' else x
                            for x in rows]
        h_in, h_out = annulus(m, b, c, mu, rho, k, cp, eps)
        h_c = circ(m, a, mu, rho, k, cp, eps)
        R_fp = h.log(d / c) / (2. * pi * k_o) + 1. / (h_out * 2. * pi * c)
        R_ff = h.log(b / a) / (2. * pi * k_i) + 1. / (h_c * 2. * pi * a) + \
            1. / (h_in * 2. * pi * b)
        h.eq('fluid to fluid', gp.fluid_to_fluid_thermal_resistance(
            t, m, r_in, r_out, k_p, eps, fluid), R_ff, tol=1e-6)
    else:
        r_in = h.real('r_in', 1e-3, 1., typ=(0.01, 0.02))
        r_out = h.real('r_out', 1e-3, 1., typ=(0.021, 0.025))
        h.assume(r_in < r_out)
        k_p = h.real('k_p', 0.01, 500., typ=(0.3, 0.5))
        pipe = m / 2. if kind == 'DOUBLE_UTUBE_PARALLEL' else m
        h_c = circ(pipe, r_in, mu, rho, k, cp, eps)
        R_fp = h.log(r_out / r_in) / (2. * pi * k_p) + \
            1. / (h_c * 2. * pi * r_in)
        h.raises('no fluid to fluid resistance', ValueError, lambda:
                 gp.fluid_to_fluid_thermal_resistance(
                     t, m, r_in, r_out, k_p, eps, fluid))
    h.eq('fluid to pipe', gp.fluid_to_pipe_thermal_resistance(
        t, m, r_in, r_out, k_p, eps, fluid), R_fp, tol=1e-6)
