"""H01-H05: finite line source solutions."""
from engine.checks_util import harness
from checks.fields import sym_bore, mk, TRIG

FN = ['heat_transfer.finite_line_source',
      'heat_transfer.finite_line_source_vectorized',
      'heat_transfer.finite_line_source_approximation',
      'heat_transfer.finite_line_source_inclined_vectorized',
      'heat_transfer.finite_line_source_inclined_approximation',
      'heat_transfer.finite_line_source_equivalent_boreholes_vectorized',
      'heat_transfer._finite_line_source_*']
AS = ['integrals over the quadrature variable are exact (quad and quad_vec '
      'are modelled as linear, additive integrals of the integrand given to '
      'them)', 'erf is odd, exp and log satisfy their functional equations']
SRC = {'both': (True, True), 'real': (True, False), 'image': (False, True)}
TOL = 2e-6
OPT = dict(noise=3e-7)
FORMS = ['scalar', 'vector', 'steady', 'approx']


def bore(h, i, tilted=False, shallow=False):
    H = h.real('H%d' % i, 5., 400., typ=(5., 15.) if shallow else (50., 200.))
    D = h.real('D%d' % i, 0.1, 20., typ=(0.1, 0.3) if shallow else (1., 5.))
    r = h.real('rb', 0.01, 0.3, typ=(0.1, 0.3) if shallow else (0.05, 0.1))
    x = h.real('x%d' % i, -100., 100., typ=(-4., 4.))
    y = h.real('y%d' % i, -100., 100., typ=(-4., 4.))
    t = h.real('t%d' % i, 0.01, 1.2, typ=(0.05, 0.6)) if tilted \
        else h.const(0.)
    o = h.real('o%d' % i, -3., 3.) if tilted else h.const(0.)
    return [H, D, r, x, y, t, o]


def times(h, form):
    a = h.real('alpha', 1e-7, 1e-5, typ=(5e-7, 2e-6))
    if form == 'steady':
        return h.np.inf, a
    if form == 'vector':
        t1 = h.real('t_1', 1e6, 1e10, typ=(1e8, 1e9))
        dt = h.real('t_2', 1e6, 1e10, typ=(1e8, 1e9))
        return h.arr([t1, t1 + dt]), a
    t = h.real('t_1', 1e6, 1e10, typ=(1e8, 1e9))
    if form == 'approx_vector':
        dt = h.real('t_2', 1e6, 1e10, typ=(1e8, 1e9))
        return h.arr([t, t + dt]), a
    return t, a


def fls(h, t, a, b1, b2, form, src='both', **k):
    r, i = SRC[src]
    h.lazy()
    if form.startswith('approx'):
        h.opaque('heat_transfer', 'exp1')
        k['approximation'] = True
        k.setdefault('N', 1)
    return h.gt.heat_transfer.finite_line_source(
        t, a, b1, b2, reaSource=r, imgSource=i, **k)


def flat(h, x):
    return h.np.reshape(h.arr(x), -1)


def cfgs(forms, srcs=('both', 'real', 'image'), **k):
    return [dict(form=f, src=s, **k) for f in forms for s in srcs]


def deeper(cs):
    return cs + [dict(c, M=m) for c in cs if c.get('tilted') for m in (2, 3)]


def scaled(h, a, k):
    return [v * k for v in flat(h, a)]


RPI = [dict(form=f, tilted=t, same=s, lists=li) for f in FORMS
       for t in (False, True) for s in (False, True)
       for li in ((False, True) if not s else (False,))]
RIG = [dict(form=f, tilted=t, move=m, src=s) for f in FORMS
       for t in (False, True) for m in ('shift', 'turn') for s in ('both',)]
VAV = [dict(form=f, tilted=t, lists=li)
       for f in ('vector', 'approx_vector', 'three')
       for t in (False, True) for li in (False, True)]


# --------------------------------------------------------------------------
@harness('H01', functions=FN, opts=OPT, assumes=AS,
         bounds='two vertical boreholes of any length, depth and distance; '
         'any one or two times; one pair of terms in approximations',
         quick=cfgs(FORMS) + [dict(form=f, src='both', lists=True)
                              for f in FORMS] + [
             dict(form=f, src='both', same_xy=True) for f in FORMS])
def reciprocity(h, form, src, lists=False, same_xy=False):
    """heat moves equally well in both directions: H2 h12 = H1 h21"""
    p1, p2 = bore(h, 1), bore(h, 2)
    if same_xy:
        p2[3], p2[4] = p1[3], p1[4]
    b1, b2 = mk(h, p1), mk(h, p2)
    t, a = times(h, form)
    if lists:
        m = fls(h, t, a, [b1, b2], [b1, b2], form, src)
        h12, h21 = m[1, 0], m[0, 1]
    else:
        h12 = fls(h, t, a, b1, b2, form, src)
        h21 = fls(h, t, a, b2, b1, form, src)
    x, y = scaled(h, h12, p2[0]), scaled(h, h21, p1[0])
    h.true('number of values', len(x) == len(y))
    for i in range(len(x)):
        h.eq('reciprocity', x[i], y[i], tol=TOL)


def cut(h, p, w, c, s=None):
    """the two parts of a borehole cut at a fraction w of its length"""
    a, b = list(p), list(p)
    a[0], b[0] = w * p[0], (1. - w) * p[0]
    st, ct = h.sin(p[5]), h.cos(p[5])
    b[1] = p[1] + a[0] * ct
    b[3] = p[3] + a[0] * st * h.cos(p[6])
    b[4] = p[4] + a[0] * st * h.sin(p[6])
    return a, b


@harness('H02', functions=FN, opts=OPT, assumes=AS + TRIG,
         bounds='a borehole cut in two at any depth, as source and as '
         'target; vertical boreholes; any geometry and times',
         quick=cfgs(FORMS, which=1) + cfgs(FORMS, which=2))
def additive(h, form, src, which):
    """cutting a borehole in two changes nothing to the temperature it
    causes or (in average) sees"""
    p1, p2 = bore(h, 1), bore(h, 2)
    h.assume((p1[3] - p2[3]) ** 2 + (p1[4] - p2[4]) ** 2 > p1[2] ** 2)
    t, a = times(h, form)
    w = h.real('cut', 0.05, 0.95, typ=(0.2, 0.8))
    src1 = p1 if which == 1 else p2
    a1, a2 = cut(h, src1, w, None)
    whole = flat(h, fls(h, t, a, mk(h, p1), mk(h, p2), form, src))
    if which == 1:
        u = flat(h, fls(h, t, a, mk(h, a1), mk(h, p2), form, src))
        v = flat(h, fls(h, t, a, mk(h, a2), mk(h, p2), form, src))
        tot = [x + y for x, y in zip(u, v)]
    else:
        u = flat(h, fls(h, t, a, mk(h, p1), mk(h, a1), form, src))
        v = flat(h, fls(h, t, a, mk(h, p1), mk(h, a2), form, src))
        tot = [w * x + (1. - w) * y for x, y in zip(u, v)]
    for i in range(len(tot)):
        h.eq('additivity', whole[i], tot[i], tol=TOL)


@harness('H02', functions=FN, opts=OPT, assumes=AS + TRIG,
         bounds='two boreholes, vertical or inclined, one or two quadrature '
         'points along inclined sources; a borehole on itself included',
         quick=RPI, thorough=deeper(RPI))
def real_plus_image(h, form, tilted, same, lists, M=1):
    """real and mirror sources superpose"""
    p1 = bore(h, 1, tilted, shallow=same)
    p2 = p1 if same else bore(h, 2, tilted)
    b1 = mk(h, p1)
    b2 = b1 if same else mk(h, p2)
    if not same:
        h.assume((p1[3] - p2[3]) ** 2 + (p1[4] - p2[4]) ** 2 > p1[2] ** 2)
    t, a = times(h, form)
    k = dict(M=M) if tilted else {}
    if lists:
        b1, b2 = [b1], [b2]
    v = [flat(h, fls(h, t, a, b1, b2, form, s, **k))
         for s in ('both', 'real', 'image')]
    for i in range(len(v[0])):
        h.eq('superposition', v[0][i], v[1][i] + v[2][i], tol=TOL)
    z = flat(h, h.gt.heat_transfer.finite_line_source(
        t, a, b1, b2, reaSource=False, imgSource=False,
        approximation=form == 'approx', **k))
    h.eq('no source, no heat', z, [h.const(0.)] * len(z), tol=1e-12)


# --------------------------------------------------------------------------
@harness('H03', functions=FN, opts=OPT, assumes=AS + TRIG,
         bounds='any displacement and rotation of two boreholes, vertical or '
         'inclined; one (three) quadrature points along inclined sources',
         quick=RIG, thorough=deeper(RIG))
def rigid_motion(h, form, tilted, move, src, M=1):
    """only relative positions and directions matter"""
    p1, p2 = bore(h, 1, tilted), bore(h, 2, tilted)
    h.assume((p1[3] - p2[3]) ** 2 + (p1[4] - p2[4]) ** 2 > p1[2] ** 2)
    t, a = times(h, form)
    k = dict(M=M) if tilted else {}
    ref = flat(h, fls(h, t, a, mk(h, p1), mk(h, p2), form, src, **k))
    q = []
    if move == 'shift':
        u, v = h.real('u', -100., 100.), h.real('v', -100., 100.)
        for p in (p1, p2):
            q.append(p[:3] + [p[3] + u, p[4] + v] + p[5:])
    else:
        f = h.real('phi', -3., 3.)
        c, s = h.cos(f), h.sin(f)
        for p in (p1, p2):
            q.append(p[:3] + [c * p[3] - s * p[4], s * p[3] + c * p[4],
                              p[5], p[6] + f])
    new = flat(h, fls(h, t, a, mk(h, q[0]), mk(h, q[1]), form, src, **k))
    for i in range(len(ref)):
        h.eq('same after a rigid motion', new[i], ref[i], tol=TOL)


# --------------------------------------------------------------------------
LAP = [dict(form=f, tilted=t, src=s) for f in FORMS
       for t in (False, True) for s in ('both', 'real', 'image')]
# vertical (v) or inclined (i) boreholes of the field
MIX = [dict(form=f, tilted=m, src='both') for f in FORMS
       for m in ('vii', 'ivv', 'viv', 'vvi', 'iiv')]


@harness('H04', functions=FN, opts=OPT, assumes=AS + TRIG,
         bounds='2 x 2 and 2 x 3 boreholes (all vertical, all inclined, '
         'some of each), of different radii, some of which are both sources '
         'and targets; two times',
         quick=LAP + MIX + [dict(form=f, tilted=False, src='both', wide=True)
                            for f in FORMS] + [
             dict(form=f, tilted=t, src='both', twice=True)
             for f in FORMS for t in (False, True)],
         thorough=deeper(LAP + MIX) + [
             dict(form=f, tilted=t, src=s, wide=True) for f in FORMS
             for t in (False, True, 'vii', 'ivv', 'viv') for s in SRC])
def lists_are_pairs(h, form, tilted, src, M=1, wide=False, twice=False):
    """values for lists of boreholes are those of their pairs"""
    tl = [tilted[k] == 'i' if isinstance(tilted, str) else tilted
          for k in range(3)]
    p = [bore(h, k + 1, tl[k]) for k in range(3)]
    for k in range(3):
        p[k][2] = h.real('rb%d' % k, 0.01, 0.3, typ=(0.03 + .05 * k,
                                                     0.07 + .05 * k))
    if twice:       # another borehole of other dimensions at the same place
        p[1][3], p[1][4] = p[0][3], p[0][4]
    for k in range(3):
        for m in range(k):
            if twice and (m, k) == (0, 1):
                continue
            d2 = (p[k][3] - p[m][3]) ** 2 + (p[k][4] - p[m][4]) ** 2
            for r in (p[k][2], p[m][2]):
                h.assume(d2 > r ** 2)
    b = [mk(h, x) for x in p]
    t, a = times(h, form)
    k = dict(M=M) if any(tl) else {}
    B1 = [b[0], b[1]]
    B2 = [b[2], b[0], b[1]] if wide else [b[1], b[2]]
    if twice:
        B1, B2 = [b[0], b[2]], [b[1], b[2]]
    m = fls(h, t, a, B1, B2, form, src, **k)
    for j, b1 in enumerate(B1):
        for i, b2 in enumerate(B2):
            if any(tl) and not (tl[b.index(b1)] or tl[b.index(b2)]):
                continue    # by quadrature in the list, exact alone
            ref = flat(h, fls(h, t, a, b1, b2, form, src, **k))
            new = flat(h, m[i, j])
            h.true('number of values', len(ref) == len(new))
            h.eq('entry of the matrix', new, ref, tol=TOL)
    if wide or twice:
        return
    one = fls(h, t, a, b[0], [b[1], b[2]], form, src, **k)
    h.eq('one source', flat(h, one), flat(h, m[:, 0]), tol=TOL)
    if any(tl) and not (tl[0] or tl[1]):
        return
    one = fls(h, t, a, [b[0], b[1]], b[1], form, src, **k)
    n = 1 if any(tl) and not tl[1] else 2    # not a vertical one on itself
    h.eq('one target', flat(h, one[0, :n]), flat(h, m[0, :n]), tol=TOL)


@harness('H04', functions=FN, opts=OPT, assumes=AS + TRIG,
         bounds='vectors of two times, or of three in any order, vertical '
         'or inclined boreholes',
         quick=VAV, thorough=deeper(VAV))
def vectors_are_values(h, form, tilted, lists, M=1):
    """values for a vector of times are those of each time"""
    p1, p2 = bore(h, 1, tilted), bore(h, 2, tilted)
    h.assume((p1[3] - p2[3]) ** 2 + (p1[4] - p2[4]) ** 2 > p1[2] ** 2)
    b1, b2 = mk(h, p1), mk(h, p2)
    if lists:
        b1, b2 = [b1], [b2]
    if form == 'three':
        a = h.real('alpha', 1e-7, 1e-5, typ=(5e-7, 2e-6))
        t = h.arr([h.real('t_%d' % k, 1e6, 1e10, typ=(1e8, 1e9))
                   for k in range(3)])
    else:
        t, a = times(h, form)
    k = dict(M=M) if tilted else {}
    new = flat(h, fls(h, t, a, b1, b2, form, **k))
    ref = [flat(h, fls(h, x, a, b1, b2, form, **k))[0] for x in t]
    h.eq('each time', new, ref, tol=TOL)


@harness('H04', functions=FN, opts=OPT, assumes=AS,
         bounds='groups of 2 and 3 boreholes, any distances and depths',
         quick=[dict(n1=n1, n2=n2, form=f, src=s) for n1, n2 in (
             (2, 3), (1, 2)) for f in ('scalar', 'vector')
             for s in ('both', 'real', 'image')])
def equivalent_boreholes(h, n1, n2, form, src):
    """the response between groups of boreholes is the sum over sources and
    average over targets of the responses of their pairs"""
    p1, p2 = bore(h, 1), bore(h, 2)
    t, a = times(h, form)
    d = [h.real('d%d' % k, 0.5, 200.) for k in range(2)]
    n = n1 * n2
    w = [h.const(1. * (n - 1)), h.const(1.)] if n > 1 else [h.const(1.)]
    d = d[:len(w)]
    r, i = SRC[src]
    col = [h.np.reshape(h.arr([v]), (1, 1)) for v in (p1[0], p1[1], p2[0],
                                                      p2[1])]
    g = h.gt.heat_transfer
    v = g.finite_line_source_equivalent_boreholes_vectorized(
        t, a, h.np.reshape(h.arr(d), (1, -1)), h.arr(w), p1[0], p1[1],
        p2[0], p2[1], n2, reaSource=r, imgSource=i)
    v = flat(h, v)
    ref = [h.const(0.)] * len(v)
    for dk, wk in zip(d, w):
        q = list(p2)
        b1 = list(p1)
        q[3], q[4] = b1[3] + dk, b1[4]
        u = flat(h, fls(h, t, a, mk(h, b1), mk(h, q), form, src))
        ref = [x + wk * y / n2 for x, y in zip(ref, u)]
    h.eq('sum over pairs', v, ref, tol=TOL)


# --------------------------------------------------------------------------
def ierf(h, x):
    return x * h.erf(x) - (1. - h.exp(-x * x)) / h.sqrt(h.pi)


@harness('H05', functions=FN, opts=OPT, assumes=AS,
         bounds='two vertical boreholes of any length, depth and distance, '
         'any one or two times', quick=cfgs(['scalar', 'vector'], lists=False
                                            ) + cfgs(['scalar', 'vector'],
                                                     lists=True) + [
             dict(form=f, src='both', lists=li, same=True) for f in (
                 'scalar', 'vector') for li in (False, True)])
def vertical_definition(h, form, src, lists, same=False):
    """the finite line source integral, from the definition"""
    h.lazy()
    p1 = bore(h, 1)
    p2 = p1 if same else bore(h, 2)
    b1 = mk(h, p1)
    b2 = b1 if same else mk(h, p2)
    t, a = times(h, form)
    if lists:
        b1, b2 = [b1], [b2]
    v = flat(h, fls(h, t, a, b1, b2, form, src))
    H1, D1, H2, D2 = p1[0], p1[1], p2[0], p2[1]
    d2 = (p1[3] - p2[3]) ** 2 + (p1[4] - p2[4]) ** 2
    d2 = h.maximum(p1[2], h.sqrt(d2)) ** 2
    r, i = SRC[src]

    def kern(s):
        tot = 0.
        if r:
            tot = (ierf(h, (D2 + H2 - D1) * s) - ierf(h, (D2 - D1) * s)
                   + ierf(h, (D2 - D1 - H1) * s)
                   - ierf(h, (D2 + H2 - D1 - H1) * s))
        if i:
            tot = tot + (ierf(h, (D2 + H2 + D1) * s)
                         - ierf(h, (D2 + D1) * s)
                         + ierf(h, (D2 + D1 + H1) * s)
                         - ierf(h, (D2 + H2 + D1 + H1) * s))
        return h.exp(-d2 * s * s) * tot / (s * s)
    ts = [t[0], t[1]] if form == 'vector' else [t]
    for k, tk in enumerate(ts):
        ref = h.quad(kern, 1. / h.sqrt(4. * a * tk), h.inf) / (2. * H2)
        h.eq('definition', v[k], ref, tol=TOL)


def inclined(h, p1, p2, x, mirror):
    """for a point at the fraction x of the source: vector to the top of the
    target and direction of the target (mirrored source: z -> -z)"""
    H1, D1, _, x1, y1, t1, o1 = p1
    H2, D2, _, x2, y2, t2, o2 = p2
    sx = x1 + x * H1 * h.sin(t1) * h.cos(o1)
    sy = y1 + x * H1 * h.sin(t1) * h.sin(o1)
    sz = D1 + x * H1 * h.cos(t1)
    if mirror:
        sz = -sz
    w = [x2 - sx, y2 - sy, D2 - sz]
    d = [h.sin(t2) * h.cos(o2), h.sin(t2) * h.sin(o2), h.cos(t2)]
    ww = sum((c * c for c in w), h.const(0.))
    if p1 is p2 and not mirror:
        # a borehole on itself: as if it were at its own radius
        ww = ww + p1[2] ** 2
    wd = sum((a * b for a, b in zip(w, d)), h.const(0.))
    return ww, wd


@harness('H05', functions=FN, opts=OPT, assumes=AS + TRIG,
         bounds='two inclined boreholes more than a radius apart, or the same '
         'one (at its radius); quadrature '
         'along the source with one to three points',
         quick=cfgs(['scalar', 'vector', 'steady'], lists=False) + cfgs(
             ['scalar', 'steady'], lists=True, M=2) + [
             dict(form=f, src=s, lists=False, same=True, M=M)
             for f in ('scalar', 'vector') for s in SRC for M in (1, 2)],
         thorough=[dict(c, M=M) for M in (1, 2, 3) for li in (False, True)
                   for c in cfgs(['scalar', 'vector', 'steady'], lists=li)])
def inclined_definition(h, form, src, lists, M=1, same=False):
    """inclined lines: integral of point sources over the target, at the
    points of a quadrature rule along the source"""
    p1 = bore(h, 1, True, shallow=same)
    if same:
        p2 = p1
    else:
        p2 = bore(h, 2, True)
        h.assume((p1[3] - p2[3]) ** 2 + (p1[4] - p2[4]) ** 2 > p1[2] ** 2)
    b1 = mk(h, p1)
    b2 = b1 if same else mk(h, p2)
    t, a = times(h, form)
    if lists:
        b1, b2 = [b1], [b2]
    v = flat(h, fls(h, t, a, b1, b2, form, src, M=M))
    H1, H2 = p1[0], p2[0]
    r, i = SRC[src]
    parts = ([(False, 1.)] if r else []) + ([(True, -1.)] if i else [])
    xs, ws = h.gauss(M)
    nodes = [(0.5 * u + 0.5, 0.5 * c) for u, c in zip(xs, ws)]
    if form == 'steady':
        ref = h.const(0.)
        for u, c in nodes:
            for m, sg in parts:
                ww, wd = inclined(h, p1, p2, u, m)
                end = h.sqrt(ww + 2. * H2 * wd + H2 * H2)
                ref = ref + c * sg * (h.log(end + H2 + wd) - h.log(
                    h.sqrt(ww) + wd)) * H1 / (2. * H2)
        h.eq('definition', v[0], ref, tol=TOL)
        return

    def kern(s):
        tot = h.const(0.)
        for u, c in nodes:
            for m, sg in parts:
                ww, wd = inclined(h, p1, p2, u, m)
                tot = tot + c * sg * h.exp(-(ww - wd * wd) * s * s) * (
                    h.erf((H2 + wd) * s) - h.erf(wd * s)) / s
        return tot * H1
    ts = [t[0], t[1]] if form == 'vector' else [t]
    for k, tk in enumerate(ts):
        ref = h.quad(kern, 1. / h.sqrt(4. * a * tk), h.inf) / (2. * H2)
        h.eq('definition', v[k], ref, tol=TOL)


@harness('H05', functions=FN, opts=OPT, assumes=AS,
         bounds='two vertical boreholes of any length, depth and distance',
         quick=[dict(src=s, lists=li) for s in ('both', 'real', 'image')
                for li in (False, True)])
def steady_definition(h, src, lists):
    """steady-state: the response per unit length of both ends is that of
    point sources, and a line without length does nothing"""
    p1, p2 = bore(h, 1), bore(h, 2)
    h.assume((p1[3] - p2[3]) ** 2 + (p1[4] - p2[4]) ** 2 > p1[2] ** 2)
    r, i = SRC[src]

    def f(H1, H2):
        q1, q2 = [H1] + p1[1:], [H2] + p2[1:]
        b1, b2 = mk(h, q1), mk(h, q2)
        if lists:
            b1, b2 = [b1], [b2]
        v = fls(h, h.np.inf, 1e-6, b1, b2, 'steady', src)
        return 2. * H2 * flat(h, v)[0]
    H1, H2 = p1[0], p2[0]
    d2 = (p1[3] - p2[3]) ** 2 + (p1[4] - p2[4]) ** 2
    z = p2[1] + H2 - p1[1] - H1
    zi = p2[1] + H2 + p1[1] + H1
    ref = h.const(0.)
    if r:
        ref = ref + 1. / h.sqrt(d2 + z * z)
    if i:
        ref = ref - 1. / h.sqrt(d2 + zi * zi)

    def g(x):
        return h.deriv(lambda y: [f(x, y)], H2, step=1e-2)[0]
    got = h.deriv(g, H1, step=1e-2)[0][0]
    h.eq('point source', got, ref, tol=2e-3, scale=0.05)
