"""B01-B04: boreholes and bore fields."""
import math

from engine.checks_util import harness

TRIG = ['sine and cosine of an angle are real numbers with sin2 + cos2 = 1']


def sym_bore(h, i, tilted=None):
    """a borehole; tilted None: the solver decides"""
    H = h.real('H%d' % i, 5., 400., typ=(50., 200.))
    D = h.real('D%d' % i, 0., 20., typ=(1., 5.), strict=False)
    r = h.real('rb%d' % i, 0.01, 0.3, typ=(0.05, 0.1))
    x = h.real('x%d' % i, -100., 100.)
    y = h.real('y%d' % i, -100., 100.)
    if tilted is False:
        t = h.const(0.)
    elif tilted:
        t = h.real('t%d' % i, 0.01, 1.2, typ=(0.05, 0.6))
    else:
        t = h.real('t%d' % i, 0., 1.2, typ=(0.05, 0.6), strict=False)
    o = h.real('o%d' % i, -3., 3.)
    return H, D, r, x, y, t, o


def mk(h, p):
    return h.gt.boreholes.Borehole(p[0], p[1], p[2], p[3], p[4], tilt=p[5],
                                   orientation=p[6])


ATTR = ['H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation']


def same_bore(h, label, a, b):
    for k in ATTR:
        h.eq(label + ' ' + k, getattr(a, k), getattr(b, k), tol=1e-9)
    h.true(label + ' is tilted', bool(a.is_tilted()) == bool(b.is_tilted()))
    h.true(label + ' is vertical',
           bool(a.is_vertical()) != bool(a.is_tilted()))


def ratios(h, n, sym):
    if not sym:
        return None, [h.frac(1, n)] * n
    r = [h.real('ratio_%d' % i, 0.02, 0.9, typ=(0.1, 0.8 / n))
         for i in range(n - 1)]
    last = 1. - sum(r, h.const(0.))
    h.assume(last > 0.01)
    r = r + [last]
    return h.arr(r), r


@harness('B01', functions=['boreholes.Borehole.segments',
                           'boreholes.Borehole._segment_edges',
                           'boreholes.Borehole._segment_midpoints'],
         assumes=TRIG,
         bounds='1-4 segments (quick), 1-8 (thorough); any geometry, tilt, '
         'orientation, ratios',
         quick=[dict(n=n, sym=s, tilted=t) for n in (1, 2, 4)
                for s in (False, True) for t in (False, True, None)],
         thorough=[dict(n=n, sym=s, tilted=t) for n in range(1, 9)
                   for s in (False, True) for t in (False, True, None)])
def segments_partition(h, n, sym, tilted):
    """the segments lie end to end along the borehole"""
    p = sym_bore(h, 0, tilted)
    b = mk(h, p)
    sr, r = ratios(h, n, sym)
    seg = b.segments(n, segment_ratios=sr)
    h.true('number of segments', len(seg) == n)
    o = p[6] if b.is_tilted() else h.const(0.)
    ux, uy, uz = (h.sin(p[5]) * h.cos(o), h.sin(p[5]) * h.sin(o),
                  h.cos(p[5]))
    x, y, z = p[3], p[4], p[1]
    tot = h.const(0.)
    ed = b._segment_edges(n, segment_ratios=sr)
    mid = b._segment_midpoints(n, segment_ratios=sr)
    h.true('number of edges', len(ed) == n + 1 and len(mid) == n)
    for i, s in enumerate(seg):
        h.eq('top of a segment = bottom of the previous one',
             [s.x, s.y, s.D], [x, y, z], tol=1e-9)
        h.eq('length', s.H, r[i] * p[0], tol=1e-9)
        h.eq('radius', s.r_b, p[2], tol=1e-9)
        h.eq('inclination', [s.tilt, s.orientation], [p[5], o], tol=1e-9)
        h.eq('edge', ed[i], tot, tol=1e-9)
        h.eq('midpoint', mid[i], tot + 0.5 * s.H, tol=1e-9)
        tot = tot + s.H
        x, y, z = x + s.H * ux, y + s.H * uy, z + s.H * uz
    h.eq('lengths sum to the length of the borehole', tot, p[0], tol=1e-9)
    h.eq('last edge', ed[n], p[0], tol=1e-9)


@harness('B01', functions=['boreholes._EquivalentBorehole.segments'],
         assumes=TRIG, bounds='2 boreholes, 1-3 segments',
         quick=[dict(n=n, sym=s, tilted=t) for n in (1, 3)
                for s in (False, True) for t in (False, True)])
def equivalent_segments(h, n, sym, tilted):
    """segments of an equivalent borehole are those of its boreholes"""
    p = sym_bore(h, 0, tilted)
    q = p[:3] + (h.real('x1', -100., 100.), h.real('y1', -100., 100.), p[5],
                 h.real('o1', -3., 3.))
    b = [mk(h, p), mk(h, q)]
    e = h.gt.boreholes._EquivalentBorehole(b)
    sr, r = ratios(h, n, sym)
    es = e.segments(n, segment_ratios=sr)
    h.true('number of segments', len(es) == n)
    for k in range(2):
        bs = b[k].segments(n, segment_ratios=sr)
        for i in range(n):
            h.eq('position', [es[i].x[k], es[i].y[k], es[i].D],
                 [bs[i].x, bs[i].y, bs[i].D], tol=1e-9)
            h.eq('size', [es[i].H, es[i].r_b, es[i].tilt],
                 [bs[i].H, bs[i].r_b, bs[i].tilt], tol=1e-9)
            h.eq('orientation', h.np.broadcast_to(
                es[i].orientation, 2)[k], bs[i].orientation, tol=1e-9)
            h.true('number of boreholes', es[i].nBoreholes == 2)


@harness('B01', functions=['boreholes.Borehole.distance',
                           'boreholes._EquivalentBorehole.distance'],
         bounds='any two boreholes / pairs of 2 and 1 boreholes',
         quick=[{}])
def distances(h):
    """distances are symmetric, Euclidean and at least one radius"""
    p, q = sym_bore(h, 0, False), sym_bore(h, 1, False)
    q = p[:3] + q[3:]
    a, b = mk(h, p), mk(h, q)
    d2 = (p[3] - q[3]) ** 2 + (p[4] - q[4]) ** 2
    d = a.distance(b)
    h.eq('symmetric', d, b.distance(a), tol=1e-9)
    if d2 > p[2] * p[2]:
        h.eq('Euclidean', d * d, d2, tol=1e-9)
    else:
        h.eq('at least the radius', d, p[2], tol=1e-9)
    h.eq('own distance', a.distance(a), p[2], tol=1e-9)
    E = h.gt.boreholes._EquivalentBorehole
    e = E([a, b])
    m = h.np.reshape(e.distance(E([b])), -1)
    h.eq('between groups', [m[0], m[1]], [d, p[2]], tol=1e-9)


# --------------------------------------------------------------------------
def make_field(h, kind, n):
    """kind: vertical / tilted / mixed"""
    ps = []
    for i in range(n):
        t = dict(vertical=False, tilted=True, mixed=bool(i % 2),
                 any=None)[kind]
        ps.append(sym_bore(h, i, t))
    cols = [h.arr([p[k] for p in ps]) for k in range(7)]
    f = h.gt.borefield.Borefield(*cols[:5], tilt=cols[5],
                                 orientation=cols[6])
    return ps, f


def check_field(h, label, f, bores):
    h.true(label + ' length', len(f) == len(bores) and
           f.nBoreholes == len(bores))
    for k in ATTR:
        v = getattr(f, k)
        h.true(label + ' size of ' + k, len(v) == len(bores))
        for i, b in enumerate(bores):
            h.eq(label + ' ' + k, v[i], getattr(b, k), tol=1e-9)


FK = ['vertical', 'tilted', 'mixed', 'any']
FBND = ('fields of 1-3 boreholes (quick), up to 4 (thorough); any geometry; '
        'vertical, tilted and mixed fields')
FFN = ['borefield.Borefield', 'boreholes.Borehole']


@harness('B02', functions=FFN, bounds=FBND,
         quick=[dict(kind=k, n=n) for k in FK for n in (1, 3)
                if (k, n) != ('any', 3)] + [dict(kind='any', n=2)],
         thorough=[dict(kind=k, n=n) for k in FK for n in (1, 2, 3, 4)])
def conversions(h, kind, n):
    """a field holds its boreholes: conversions, indexing, iteration"""
    ps, f = make_field(h, kind, n)
    bores = [mk(h, p) for p in ps]
    check_field(h, 'arrays', f, bores)
    out = f.to_boreholes()
    h.true('number', len(out) == n and len(list(f)) == n)
    for i in range(n):
        same_bore(h, 'to_boreholes', out[i], bores[i])
        same_bore(h, 'index', f[i], bores[i])
        same_bore(h, 'index from the end', f[i - n], bores[i])
    for i, b in enumerate(f):
        same_bore(h, 'iteration', b, bores[i])
    check_field(h, 'from_boreholes', h.gt.borefield.Borefield.from_boreholes(
        bores), bores)
    check_field(h, 'round trip', h.gt.borefield.Borefield.from_boreholes(
        out), bores)
    check_field(h, 'slice', f[::-1], bores[::-1])
    check_field(h, 'slice', f[:n - 1 or 1], bores[:n - 1 or 1])
    idx = [n - 1, 0]
    check_field(h, 'list of indices', f[idx], [bores[i] for i in idx])
    if n == 1:
        check_field(h, 'single borehole',
                    h.gt.borefield.Borefield.from_boreholes(bores[0]), bores)
    h.true('equal to itself', f == out)
    h.true('equal to itself', not (f != out))


@harness('B02', functions=FFN, bounds='scalars broadcast to 3 boreholes',
         quick=[dict(tilted=t) for t in (True, False)])
def broadcasting(h, tilted):
    """a value given once applies to every borehole"""
    p = sym_bore(h, 0, tilted)
    X = h.reals('X', 3, -50., 50.)
    Y = h.reals('Y', 3, -50., 50.)
    f = h.gt.borefield.Borefield(p[0], p[1], p[2], h.arr(X), h.arr(Y),
                                 tilt=p[5], orientation=p[6])
    check_field(h, 'field', f, [mk(h, p[:3] + (X[i], Y[i]) + p[5:])
                                for i in range(3)])
    f = h.gt.borefield.Borefield(p[0], p[1], p[2], h.arr(X), Y[0],
                                 tilt=p[5], orientation=p[6])
    check_field(h, 'field', f, [mk(h, p[:3] + (X[i], Y[0]) + p[5:])
                                for i in range(3)])


@harness('B02', functions=FFN, bounds=FBND,
         quick=[dict(kind=k) for k in ('vertical', 'mixed')],
         thorough=[dict(kind=k) for k in FK])
def concatenation(h, kind):
    """fields, lists and boreholes add up in order"""
    ps, f = make_field(h, kind, 4)
    b = [mk(h, p) for p in ps]
    F = h.gt.borefield.Borefield.from_boreholes
    f01, f23 = f[:2], f[2:]
    check_field(h, 'borehole + borehole', b[0] + b[1], b[:2])
    check_field(h, 'borehole + list', b[0] + [b[1], b[2]], b[:3])
    check_field(h, 'list + borehole', [b[0], b[1]] + b[2], b[:3])
    check_field(h, 'field + borehole', f01 + b[2], b[:3])
    check_field(h, 'borehole + field', b[1] + f23, b[1:])
    check_field(h, 'field + list', f01 + [b[2], b[3]], b)
    check_field(h, 'list + field', [b[0], b[1]] + f23, b)
    check_field(h, 'field + field', f01 + f23, b)
    h.raises('other types', TypeError, lambda: f01 + 3.)


@harness('B02', functions=FFN + ['numpy.allclose (model)'],
         bounds='3 boreholes; any one attribute changed by more than 1 % + '
         '0.001 or exchanged between two boreholes, boreholes inclined to '
         'the other side, reordered or missing',
         quick=[dict(attr=k) for k in range(7)] + [
             dict(attr='order'), dict(attr='missing'),
             dict(attr='side')] + [dict(attr=k, swap=True)
                                   for k in range(7)])
def equality(h, attr, swap=False):
    """fields that differ are not equal"""
    ps, f = make_field(h, 'tilted', 2)
    if attr == 'order':
        h.assume(abs(ps[0][0] - ps[1][0]) > 5.)
        g = f[::-1]
    elif attr == 'missing':
        g = f[:1]
    elif swap or attr == 'side':
        qs = [list(p) for p in ps]
        if swap:
            u, v = ps[0][attr], ps[1][attr]
            h.assume(abs(u - v) > 0.001 * (1. + abs(u)) + 0.001 * abs(v))
            qs[0][attr], qs[1][attr] = v, u
        else:
            i = h.choice('which', [0, 1])
            h.assume(ps[i][5] > 0.001)
            qs[i][5] = -ps[i][5]
        g = h.gt.borefield.Borefield(
            *[h.arr([p[k] for p in qs]) for k in range(5)],
            tilt=h.arr([p[5] for p in qs]),
            orientation=h.arr([p[6] for p in qs]))
    else:
        i = h.choice('which', [0, 1])
        q = list(ps[i])
        d = h.real('d', 0.001, 0.1)
        q[attr] = q[attr] + d * (1. + abs(q[attr])) * h.choice(
            'sign', [1., -1.])
        qs = list(ps)
        qs[i] = tuple(q)
        g = h.gt.borefield.Borefield(
            *[h.arr([p[k] for p in qs]) for k in range(5)],
            tilt=h.arr([p[5] for p in qs]),
            orientation=h.arr([p[6] for p in qs]))
        if attr == 5:
            h.assume(q[5] > 0.001)
    h.true('not equal', not (f == g) and not (g == f))
    h.true('different', (f != g) and (g != f))
    h.true('not equal to the list', not (f == g.to_boreholes()))


@harness('B02', functions=FFN + ['borefield.Borefield.to_file',
                                 'borefield.Borefield.from_file',
                                 'boreholes.field_from_file'],
         assumes=['np.savetxt / np.loadtxt are modelled: numbers printed '
                  'with 17 or more digits are read back exactly'],
         bounds='fields of 1-3 boreholes',
         quick=[dict(kind=k, n=n) for k in ('vertical', 'mixed')
                for n in (1, 2, 3)],
         thorough=[dict(kind=k, n=n) for k in FK for n in (1, 2, 3, 4)])
def file_round_trip(h, kind, n):
    """a field written to a file is read back unchanged"""
    ps, f = make_field(h, kind, n)
    name = h.tmpfile()
    f.to_file(name)
    b = [mk(h, p) for p in ps]
    check_field(h, 'Borefield.from_file',
                h.gt.borefield.Borefield.from_file(name), b)
    out = h.gt.boreholes.field_from_file(name)
    h.true('number', len(out) == n)
    for i in range(n):
        same_bore(h, 'field_from_file', out[i], b[i])


@harness('B02', functions=['borefield.Borefield.from_file',
                           'boreholes.field_from_file'],
         bounds='files of 1-2 lines with 5 columns', quick=[dict(n=1),
                                                            dict(n=2)])
def file_five_columns(h, n):
    """files without inclination hold vertical boreholes"""
    ps = [sym_bore(h, i, False) for i in range(n)]
    name = h.tmpfile()
    h.np.savetxt(name, h.arr([[p[3], p[4], p[0], p[1], p[2]] for p in ps]))
    b = [mk(h, p) for p in ps]
    check_field(h, 'Borefield.from_file',
                h.gt.borefield.Borefield.from_file(name), b)
    out = h.gt.boreholes.field_from_file(name)
    for i in range(n):
        same_bore(h, 'field_from_file', out[i], b[i])


# --------------------------------------------------------------------------
def layout(h, shape, N1, N2, B1, B2, last):
    """positions in units of the spacings, in order"""
    if shape == 'rectangle':
        return [(i, j) for j in range(N2) for i in range(N1)]
    if shape == 'L':
        return [(i, 0) for i in range(N1)] + [(0, j) for j in range(1, N2)]
    if shape == 'U':
        out = [(i, 0) for i in range(N1)]
        for j in range(1, N2):
            out += [(i, j) for i in ([0, N1 - 1] if N1 > 1 else [0])]
        return out
    if shape == 'box':
        out = [(i, 0) for i in range(N1)]
        for j in range(1, N2 - 1):
            out += [(i, j) for i in ([0, N1 - 1] if N1 > 1 else [0])]
        if N2 > 1:
            out += [(i, N2 - 1) for i in range(N1)]
        return out
    out = []
    for j in range(N2):
        for i in range(N1):
            if N1 == 1 or N2 == 1:
                out.append((i, j))
            elif j % 2 == 0:
                out.append((i, j))
            elif last or i < N1 - 1:
                out.append((i + h.frac(1, 2), j))
    return out


SHAPES = ['rectangle', 'staggered', 'dense', 'L', 'U', 'box']


def build(h, mod, shape, N1, N2, B1, B2, H, D, r, last, tilt, origin):
    f = getattr(mod, dict(rectangle='rectangle_field',
                          staggered='staggered_rectangle_field',
                          dense='dense_rectangle_field', L='L_shaped_field',
                          U='U_shaped_field', box='box_shaped_field')[shape])
    kw = dict(tilt=tilt, origin=origin)
    if shape == 'staggered':
        return f(N1, N2, B1, B2, H, D, r, last, **kw)
    if shape == 'dense':
        return f(N1, N2, B1, H, D, r, last, **kw)
    return f(N1, N2, B1, B2, H, D, r, **kw)


def field_cfgs(ns, shapes=SHAPES, tilts=('none', 'centre', 'origin')):
    out = []
    for s in shapes:
        for a, b in ns:
            for l in ((True, False) if s in ('staggered', 'dense')
                      else (True,)):
                for t in tilts:
                    for old in (False, True):
                        out.append(dict(shape=s, N1=a, N2=b, last=l, tilt=t,
                                        old=old))
    return out


@harness('B03', functions=['borefield.Borefield.*_field',
                           'boreholes.*_field (deprecated constructors)'],
         assumes=TRIG + ['no borehole of a tilted field lies exactly one '
                         'radius away from the origin of the tilt'],
         bounds='1 to 3 (quick) or 5 rows and columns; any spacing between 1 '
         'and 50 m, any geometry, tilt and origin',
         quick=field_cfgs([(1, 1), (1, 3), (2, 2), (3, 2), (3, 3)],
                          tilts=('none',)) + field_cfgs(
             [(1, 3), (2, 2), (3, 3), (3, 2)], tilts=('centre',)) +
         field_cfgs([(2, 2), (2, 1)], tilts=('origin',)),
         thorough=field_cfgs([(a, b) for a in range(1, 6)
                              for b in range(1, 6)], tilts=('none', 'centre')
                             ) + field_cfgs([(2, 3), (3, 2), (1, 4)],
                                            tilts=('origin',)))
def layouts(h, shape, N1, N2, last, tilt, old):
    """the boreholes of a regular field, their number and positions, and
    their inclination away from the origin"""
    B1 = h.real('B1', 1., 50., typ=(4., 8.))
    B2 = h.real('B2', 1., 50., typ=(4., 8.))
    if shape == 'dense':
        B2 = h.sqrt(h.const(3.)) / 2. * B1 if N1 > 1 else B1
    H = h.real('H', 5., 400.)
    D = h.real('D', 0., 20., strict=False)
    r = h.real('rb', 0.01, 0.2, typ=(0.05, 0.1))
    t = h.real('tilt', 0.01, 1.2, typ=(0.05, 0.6)) if tilt != 'none' \
        else h.const(0.)
    xy = [(i * B1, j * B2) for i, j in layout(
        h, 'staggered' if shape == 'dense' else shape, N1, N2, B1, B2, last)]
    x0 = y0 = None
    origin = None
    if tilt == 'origin':
        x0 = h.real('x0', -100., 100., typ=(-3., 10.))
        y0 = h.real('y0', -100., 100., typ=(-3., 10.))
        origin = (x0, y0)
        for x, y in xy:
            h.assume((x - x0) ** 2 + (y - y0) ** 2 != r * r)
    elif tilt == 'centre':
        # middle of the rectangle that holds all of the boreholes
        w = N1 - 1
        if shape in ('staggered', 'dense') and N1 > 1 and N2 > 1 and last:
            w = w + h.frac(1, 2)
        x0, y0 = w * B1 / 2., (N2 - 1) * B2 / 2.
    mod = h.gt.boreholes if old else h.gt.borefield.Borefield
    f = build(h, mod, shape, N1, N2, B1, B2, H, D, r, last, t, origin)
    bores = list(f)
    h.true('number of boreholes', len(bores) == len(xy))
    left = list(range(len(xy)))
    for k, b in enumerate(bores):
        # the order of the boreholes is not part of the property
        j = next((j for j in left if close(h, b, xy[j])), None)
        h.true('position', j is not None)
        if j is None:
            continue
        left.remove(j)
        x, y = xy[j]
        h.eq('position', [b.x, b.y], [x, y], tol=1e-9)
        h.eq('dimensions', [b.H, b.D, b.r_b], [H, D, r], tol=1e-9)
        if tilt == 'none':
            h.eq('vertical', b.tilt, 0.)
            h.true('vertical', not b.is_tilted())
            continue
        d2 = (x - x0) ** 2 + (y - y0) ** 2
        if d2 < r * r:
            h.eq('borehole at the origin is vertical', b.tilt, 0.)
        else:
            h.eq('tilt', b.tilt, t, tol=1e-9)
            d = h.sqrt(d2)
            h.eq('leans away from the origin',
                 [d * h.cos(b.orientation), d * h.sin(b.orientation)],
                 [x - x0, y - y0], tol=1e-8)


def close(h, b, p):
    for u, v in ((b.x, p[0]), (b.y, p[1])):
        if h.symbolic:
            if (u - v).r.num:
                return False
        elif abs(u - v) > 1e-6:
            return False
    return True


@harness('B03', functions=['borefield.Borefield.circle_field',
                           'boreholes.circle_field'], assumes=TRIG,
         bounds='1-4 and 6 boreholes on the circle (values of sine and '
         'cosine are exact), any radius, tilt and origin',
         quick=[dict(N=N, tilt=t, old=o) for N in (1, 2, 3, 4, 6)
                for t in ('none', 'centre') for o in (False, True)] + [
             dict(N=2, tilt='origin', old=o) for o in (False, True)])
def circle(h, N, tilt, old):
    """boreholes of a circular field"""
    R = h.real('R', 1., 50., typ=(4., 8.))
    H = h.real('H', 5., 400.)
    D = h.real('D', 0., 20., strict=False)
    r = h.real('rb', 0.01, 0.2, typ=(0.05, 0.1))
    t = h.real('tilt', 0.01, 1.2, typ=(0.05, 0.6)) if tilt != 'none' \
        else h.const(0.)
    xy = [(R * h.cos(2 * h.pi * i / N), R * h.sin(2 * h.pi * i / N))
          for i in range(N)]
    x0 = y0 = 0.
    origin = None
    if tilt == 'origin':
        x0 = h.real('x0', -100., 100., typ=(-3., 10.))
        y0 = h.real('y0', -100., 100., typ=(-3., 10.))
        origin = (x0, y0)
        for x, y in xy:
            h.assume((x - x0) ** 2 + (y - y0) ** 2 != r * r)
    mod = h.gt.boreholes if old else h.gt.borefield.Borefield
    f = list(mod.circle_field(N, R, H, D, r, tilt=t, origin=origin))
    h.true('number of boreholes', len(f) == N)
    for k, b in enumerate(f):
        x, y = xy[k]
        h.eq('position', [b.x, b.y], [x, y], tol=1e-8)
        h.eq('on the circle', b.x ** 2 + b.y ** 2, R * R, tol=1e-8)
        h.eq('dimensions', [b.H, b.D, b.r_b], [H, D, r], tol=1e-9)
        if tilt == 'none':
            h.eq('vertical', b.tilt, 0.)
            continue
        d2 = (x - x0) ** 2 + (y - y0) ** 2
        if d2 < r * r:
            h.eq('borehole at the origin is vertical', b.tilt, 0.)
        else:
            d = h.sqrt(d2)
            h.eq('tilt', b.tilt, t, tol=1e-9)
            h.eq('leans away from the origin',
                 [d * h.cos(b.orientation), d * h.sin(b.orientation)],
                 [x - x0, y - y0], tol=1e-8)


# --------------------------------------------------------------------------
@harness('B04', functions=['boreholes.find_duplicates',
                           'boreholes.remove_duplicates'],
         bounds='2-3 boreholes (quick) or 4 on a line or in the plane, '
         'any coordinates and radii',
         quick=[dict(n=n, plane=p, form=f) for n, p in (
             (1, False), (2, True), (3, False), (4, False))
             for f in ('list', 'field')],
         thorough=[dict(n=n, plane=p, form=f) for n, p in (
             (1, True), (2, True), (3, True), (4, False), (5, False))
             for f in ('list', 'field')], opts=dict(max_paths=30000))
def duplicates(h, n, plane, form):
    """duplicates are the pairs closer than the largest radius; removing
    them leaves distinct boreholes and loses no location"""
    bs = []
    r0 = h.real('rb0', 0.01, 0.3, typ=(0.05, 0.1))
    rs = [r0] + [h.real('rb%d' % i, 0.01, 0.3, typ=(0.05, 0.1))
                 if i == n - 1 and n < 4 else r0 for i in range(1, n)]
    xs = h.reals('x', n, -100., 100., typ=(-0.1, 0.1))
    ys = h.reals('y', n, -100., 100., typ=(-0.1, 0.1)) if plane \
        else [h.const(0.)] * n
    for i in range(n):
        bs.append(h.gt.boreholes.Borehole(100. + i, 4., rs[i], xs[i], ys[i]))
    r = r0
    for v in rs[1:]:
        if v > r:
            r = v
    d2 = {}
    for i in range(n):
        for j in range(i + 1, n):
            d2[i, j] = (xs[i] - xs[j]) ** 2 + (ys[i] - ys[j]) ** 2
            h.assume(d2[i, j] != r * r)
    arg = bs if form == 'list' else \
        h.gt.borefield.Borefield.from_boreholes(bs)
    pairs = h.gt.boreholes.find_duplicates(arg)
    pairs = [tuple(int(v) for v in p) for p in pairs]
    h.true('no pair is listed twice', len(set(pairs)) == len(pairs))
    for i in range(n):
        for j in range(i + 1, n):
            if (i, j) in pairs or (j, i) in pairs:
                h.lt('listed pairs are close', d2[i, j], r * r)
            else:
                h.lt('other pairs are apart', r * r, d2[i, j])
    h.true('indices in range', all(0 <= a < n and 0 <= b < n and a != b
                                   for a, b in pairs))
    out = h.gt.boreholes.remove_duplicates(arg)
    kept = [int(round(fl(h, b.H) - 100.)) for b in out]
    h.true('kept boreholes are boreholes of the field, in order',
           kept == sorted(set(kept)) and all(0 <= k < n for k in kept))
    h.true('first borehole kept', 0 in kept)
    for b, k in zip(out, kept):
        h.eq('unchanged', [b.x, b.y, b.r_b], [xs[k], ys[k], rs[k]],
             tol=1e-9)
    for a in range(len(kept)):
        for b in range(a + 1, len(kept)):
            h.lt('remaining boreholes are apart', r * r,
                 d2[kept[a], kept[b]])
    for i in range(n):
        if i not in kept:
            h.true('removed boreholes duplicate an earlier one', any(
                (j, i) in pairs or (i, j) in pairs for j in range(i)))


def fl(h, x):
    return float(x.r.const_value()) if h.symbolic else float(x)
