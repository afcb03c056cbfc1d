"""V01, V02: what figures show."""
import re

from engine.checks_util import harness
from checks.solvers import (ALPHA, ANYH, PIPES, any_clusters, law_of,
                            some_ratios, times)

DX = 6.


def value_of(x):
    """number, or None if it depends on inputs"""
    if not hasattr(x, 'r'):
        return float(x)
    v = x.r.const_value()
    return None if v is None else float(v)


def at_x(x, i):
    v = value_of(x)
    return v is not None and abs(v - DX * i) < 1e-6


def leaning(h, n, tilt=True, same=False):
    """boreholes at x = 0, 6, ..., of any depth, length and inclination"""
    B = h.gt.boreholes.Borehole
    out = []
    for i in range(n):
        k = 0 if same else i
        tl = h.real('tilt%d' % i, 0.05, 0.5) if tilt else 0.
        o = h.real('orientation%d' % i, 0.1, 6.) if tilt else 0.
        out.append(B(h.real('H%d' % k, 20., 300., typ=(50., 200.)),
                     h.real('D%d' % k, 0.5, 20.), 0.075, DX * i,
                     h.const(0.) if same else h.real('y%d' % i, -20., 20.),
                     tl, o))
    return out


def bottom(h, b):
    s = b.H * h.np.sin(b.tilt)
    return (b.x + s * h.np.cos(b.orientation),
            b.y + s * h.np.sin(b.orientation), b.D + b.H * h.np.cos(b.tilt))


def heads(h, ax, bs, tilt):
    """colours of the markers of the boreholes of a plan; the others lines are
    those to the bottom ends of boreholes"""
    col = {}
    # one marker, or markers, at once
    points = [([v[k] for v in u], c) for u, c, _, joined in ax.lines
              if not joined for k in range(len(u[0]))]
    spans = [(u, c) for u, c, _, joined in ax.lines if joined]
    h.true('two ends', all(len(u[0]) == 2 for u, _ in spans))
    h.true('one marker per borehole', len(points) == len(bs))
    h.true('one line per borehole', len(spans) == (len(bs) if tilt else 0))
    for i, b in enumerate(bs):
        p = [(u, c) for u, c in points if at_x(u[0], i)]
        h.true('a marker at each borehole', len(p) == 1)
        (u, c), = p
        col[i] = c
        h.eq('marker', u[1], b.y)
        if len(u) > 2:
            h.eq('depth of the marker', u[2], b.D)
        if not tilt:
            continue
        s = [(u, e) for u, e in spans if at_x(u[0][0], i)]
        h.true('a line from each borehole', len(s) == 1)
        (u, e), = s
        h.true('colour of the line', e == c)
        z = bottom(h, b)
        h.eq('line', [v[0] for v in u], [b.x, b.y, b.D][:len(u)])
        h.eq('bottom', [v[1] for v in u], list(z)[:len(u)])
    return col


def any_response(h, method):
    """response factors are numbers: what is found is replaced afterwards"""
    def factors(self, time, alpha, kind='linear'):
        n, nt = self.nSources, len(time)
        y = [[[0.] + [(4. + k if i == j else 1. + k) for k in range(nt)]
              for j in range(n)] for i in range(n)]
        t = h.np.hstack((h.arr([0.]), time))
        return h.interp1d(t, h.arr(y), axis=2, kind=kind)
    for c in ('Detailed', 'Similarities', 'Equivalent'):
        h.patch(getattr(h.gt.solvers, c), 'thermal_response_factors', factors)
    if method == 'equivalent':
        any_clusters(h, one=True)


RATES = (0.25, 0.5)


def solved(h, bc, nb, nt, method, nseg, ratios, nm=0, tilt=True):
    """g-function object with any values in place of those of the solver"""
    eq = method == 'equivalent'
    tilt = tilt and not eq
    any_response(h, method)
    bs = leaning(h, nb, tilt, same=eq)
    t = times(h, nt, False)
    n, rat = some_ratios(h, ratios, nseg, nb)
    obj, kw = bs, {}
    if bc == 'MIFT':
        from checks.networks import StubPipe
        pipes = []
        for b in bs:
            p = StubPipe(h, law_of(h, 0))
            p.k_s, p.b, p._Rd = h.const(2.), b, h.np.eye(2)
            pipes.append(p)
        obj = h.gt.networks.Network(bs, pipes)
        kw = dict(cp_f=h.const(4000.), m_flow_network=h.arr(
            [h.const(m) for m in RATES]) if nm else h.const(0.25))
    o = dict(nSegments=n, segment_ratios=rat, profiles=True,
             linear_threshold=h.const(0.))
    if eq:
        o['kClusters'] = 0
    g = h.gt.gfunction.gFunction(
        obj, ALPHA, time=h.arr(t), method=method, boundary_condition=bc,
        options=o, **kw)
    h.true('method', g.method == method)
    for nme, ob in (('Q_b', g.solver), ('T_b', g.solver), ('gFunc', g)):
        v = getattr(ob, nme)
        if nme == 'Q_b' and bc == 'UHTR':
            continue
        x = h.np.reshape(v, -1)
        x = h.np.reshape(h.arr([h.real('%s_%d' % (nme, i), -10., 10.)
                                for i in range(len(x))]), h.np.shape(v))
        setattr(ob, nme, x)
    return g, bs, t, rat


def log_times(h, bs, t):
    H = sum((b.H for b in bs), h.const(0.)) / len(bs)
    return [h.np.log(x / (H * H / (9. * ALPHA))) for x in t]


def flow_of(title):
    m = re.search(r'm_flow=([-+0-9.e]+)', title)
    return float(m.group(1)) if m else None


CURVES = ['gfunction.gFunction.visualize_*',
          'gfunction.gFunction._heat_extraction_rates',
          'gfunction.gFunction._temperatures',
          'gfunction.gFunction._heat_extraction_rate_profiles',
          'gfunction.gFunction._temperature_profiles']
DRAW = ['what matplotlib is given to draw is drawn: in the encoded code, a '
        'stand-in that keeps lines, circles and texts takes its place; '
        'replays use matplotlib itself']
ANYV = ['values found by the solver are any (G01 to G06 for what they are)']


@harness('V01', functions=CURVES, assumes=[ANYH, PIPES] + DRAW + ANYV,
         bounds='any lengths of boreholes, times and values; numbers of '
         'times and flow rates of the configuration', quick=[
             dict(bc='UBWT', nt=2), dict(bc='UHTR', nt=3),
             dict(bc='UBWT', nt=2, method='equivalent'),
             dict(bc='MIFT', nt=2), dict(bc='MIFT', nt=1, nm=2),
             dict(bc='MIFT', nt=2, nm=2, which=[(1, 0)]),
             dict(bc='MIFT', nt=1, nm=2, which=[(0, 1), (1, 1), (0, 0)])])
def curves(h, bc, nt, nm=0, which=None, method='detailed'):
    """visualize_g_function: ln(t/ts) and the g-function, or those of the
    pairs of flow rates that are asked for, by name"""
    g, bs, t, _ = solved(h, bc, 2, nt, method, 1, None, nm)
    x = log_times(h, bs, t)
    h.figures(new=True)
    if which is None:
        fig = g.visualize_g_function()
    else:
        fig = g.visualize_g_function(which=which)
    figs = h.figures()
    h.true('one figure', len(figs) == 1)
    lines = [ln for ax in figs[0].axes for ln in ax.lines]
    if not nm:
        h.true('one curve', len(lines) == 1)
        h.true('some points', len(lines[0][0][0]) == nt)
        h.eq('times', list(lines[0][0][0]), x)
        h.eq('values', list(lines[0][0][1]), [g.gFunc[k] for k in range(nt)])
        return
    if which is None:
        which = [(i, j) for i in range(nm) for j in range(nm)]
    h.true('number of curves', len(lines) == len(which))
    for i, j in which:
        u = [ln for ln in lines if re.sub(r'\D', '', ln[2]) == '%d%d' % (
            i, j)]
        h.true('name of the curve', len(u) == 1)
        h.true('some points', len(u[0][0][0]) == nt)
        h.eq('times', list(u[0][0][0]), x)
        h.eq('values', list(u[0][0][1]),
             [g.gFunc[i, j, k] for k in range(nt)])


KINDS = ['heat_extraction_rates', 'temperatures',
         'heat_extraction_rate_profiles', 'temperature_profiles']
NONUNI = [(k, b) for k in KINDS for b in ('UHTR', 'UBWT', 'MIFT')]


@harness('V01', functions=CURVES, assumes=[ANYH, PIPES] + DRAW + ANYV,
         bounds='one or two boreholes of any length, depth and inclination '
         '(of the same length and vertical where the solver is equivalent), '
         'any times, ratios and values; numbers of segments, times and flow '
         'rates, and arguments, of the configuration', quick=[
             dict(kind=k, bc=b) for k, b in NONUNI] +
         [dict(kind=k, bc=b, shown=s, tilt=l, nseg=2, ratios='same')
          for k, b in NONUNI for s, l in (([1, 0], False), ([1], True))] +
         [dict(kind=k, bc='MIFT', nm=2, shown=s, tilt=l, which=w, nt=2)
          for k in KINDS for s, l, w in (
              (None, True, None), ([1], False, [1]), ([1, 0], True, [1, 0]))] +
         [dict(kind=k, bc='MIFT', nm=2, nseg=2, ratios='same', which=[1])
          for k in KINDS] +
         [dict(kind=k, bc=b, method='equivalent', tilt=l)
          for k in KINDS for b, l in (('UHTR', True), ('UBWT', False),
                                      ('MIFT', True))] +
         [dict(kind=k, bc=b, when=True, nt=3) for k in KINDS[2:]
          for b in ('UHTR', 'UBWT', 'MIFT')] +
         [dict(kind=k, bc='MIFT', nm=2, when=True, nt=2) for k in KINDS[2:]])
def by_borehole(h, kind, bc, nm=0, nt=2, nseg=1, ratios=None, shown=None,
                tilt=None, which=None, method='detailed', when=False):
    """visualize_heat_extraction_rates, visualize_temperatures and profiles:
    a plan of the field, and the values of the boreholes asked for, in the
    colours of their markers, at the flow rates asked for"""
    nb = 2
    eq = method == 'equivalent'
    g, bs, t, rat = solved(h, bc, nb, nt, method, nseg, ratios, nm)
    prof = kind.endswith('profiles')
    heat = kind.startswith('heat')
    kw = {}
    if shown is not None:
        kw['iBoreholes'] = shown
    if tilt is not None:
        kw['showTilt'] = tilt
    if which is not None:
        kw['which'] = which
    w, k0 = None, 0
    if when:
        k0 = 1 if nt > 2 else 0
        w = h.real('when', 0., 1., typ=(0.1, 0.9))
        kw['time'] = t[k0] + w * (t[k0 + 1] - t[k0])
    h.figures(new=True)
    fig = getattr(g, 'visualize_' + kind)(**kw)
    figs = h.figures()
    flows = [0] if not nm else which if which is not None else list(
        range(nm))
    h.true('one figure per flow rate', len(figs) == len(flows))
    h.true('a figure is returned', fig is not None)
    if shown is None:
        shown = list(range(1 if eq else nb))
    X = g.solver.Q_b if heat else g.solver.T_b
    one = heat and bc == 'UHTR'
    same = one or not heat and bc == 'UBWT'
    r = list(rat) if rat is not None else [h.const(1.)] * nseg

    def value(m, i, j, k):
        if one:
            return h.const(1.)
        if same:
            return X[k]
        s = i * nseg + j
        return X[m, s, k] if nm else X[s, k]

    def now(m, i, j):
        if not when:
            return value(m, i, j, nt - 1)
        a, b = value(m, i, j, k0), value(m, i, j, k0 + 1)
        return a + w * (b - a)
    x = log_times(h, bs, t)
    for f, m in zip(figs, flows):
        if nm:
            h.true('title', flow_of(f.title) == RATES[m])
        plan = [a for a in f.axes if 'y' in a.labels[1]]
        h.true('two axes', len(f.axes) == 2 and len(plan) == 1)
        ax, = [a for a in f.axes if a is not plan[0]]
        col = heads(h, plan[0], bs, tilt is not False)
        if eq:        # one curve for the group
            h.true('colour of the group', len(set(col.values())) == 1)
        h.true('depths increase downwards', ax.down[1] == prof)
        h.true('one curve per borehole', len(ax.lines) == len(shown))
        for i in range(nb):
            if i not in shown and not eq:
                h.true('marker of another borehole', col[i] not in
                       [u[1] for u in ax.lines])
        for i in shown:
            ln = [u[0] for u in ax.lines if u[1] == col[i]]
            h.true('curve of the colour of the marker', len(ln) == 1)
            u, v = (list(q) for q in ln[0])
            b = bs[i]
            if not prof:
                h.true('number of points', len(u) == nt)
                h.eq('times', u, x)
                h.eq('averages', v, [
                    sum((r[j] * value(m, i, j, k) for j in range(nseg)),
                        h.const(0.)) if not same else value(m, i, 0, k)
                    for k in range(nt)])
                continue
            if same or nseg == 1:
                z = [b.D, b.D + b.H]
                P = [now(m, i, 0)] * 2
            else:
                z = [b.D + b.H * (sum(r[:j], h.const(0.)) + r[j] / 2.)
                     for j in range(nseg)]
                P = [now(m, i, j) for j in range(nseg)]
            h.true('number of points', len(u) == len(z))
            h.eq('depths', v, z)
            h.eq('profile', u, P)


# --------------------------------------------------------------------------
@harness('V02', functions=['borefield.Borefield.visualize_field',
                           'boreholes.visualize_field'], assumes=DRAW,
         bounds='one to three boreholes of any depth, length, inclination and '
         'y; x of each is a number; views and options of the configuration',
         quick=[dict(way=w, nb=n, **o) for w in ('Borefield', 'list')
                for n in (1, 3) for o in (
                    {}, dict(viewTop=False), dict(view3D=False),
                    dict(labels=False), dict(showTilt=False, view3D=False))])
def field_to_scale(h, way, nb, **o):
    """visualize_field: heads and bottoms of boreholes where they are, each
    head named by its index"""
    bs = leaning(h, nb)
    h.figures(new=True)
    if way == 'list':
        fig = h.gt.boreholes.visualize_field(bs, **o)
    else:
        fig = h.gt.borefield.Borefield.from_boreholes(bs).visualize_field(
            **o)
    h.true('a figure is returned', fig is not None)
    figs = h.figures()
    h.true('one figure', len(figs) == 1)
    top = [a for a in figs[0].axes if not a.solid]
    solid = [a for a in figs[0].axes if a.solid]
    h.true('plan', len(top) == (1 if o.get('viewTop', True) else 0))
    h.true('view', len(solid) == (1 if o.get('view3D', True) else 0))
    for ax in solid:
        h.true('depths increase downwards', ax.down[2] and not any(
            ax.down[:2]))
        heads(h, ax, bs, True)
    for ax in top:
        h.true('directions', not any(ax.down))
        heads(h, ax, bs, o.get('showTilt', True))
        named = o.get('labels', True)
        h.true('number of names', len(ax.texts) == (nb if named else 0))
        for x, y, s in ax.texts:
            i = int(float(s))
            h.true('name', 0 <= i < nb and at_x(x, i))
            h.eq('place of the name', y, bs[i].y)
        h.true('names', len({int(float(s[2])) for s in ax.texts}) == len(ax.texts))


@harness('V02', functions=['pipes._BasePipe.visualize_pipes',
                           'pipes.Coaxial.visualize_pipes'], assumes=DRAW + [
    'resistances are numbers (P08 for their values)'],
         bounds='one, two or three U-tubes, or coaxial pipes with either '
         'inside, of any radii and positions accepted in a borehole of any '
         'radius', quick=[dict(kind=k) for k in (
             'single', 'double', 'triple', 'indep', 'coax_in', 'coax_out')])
def section_to_scale(h, kind):
    """visualize_pipes: the wall of the borehole, both walls of each pipe, and
    the number of each pipe inside of it"""
    gp = h.gt.pipes
    h.patch(gp, 'thermal_resistances', lambda *a, **k: (
        h.np.eye(len(a[0])), h.np.eye(len(a[0])) + 1.))
    n = {'single': 1, 'double': 2, 'indep': 2, 'triple': 3}.get(kind, 0)
    r_b = h.real('r_b', 0.1, 0.2)
    b = h.gt.boreholes.Borehole(100., 4., r_b, 0., 0.)
    h.figures(new=True)
    k = [h.const(v) for v in (2., 1., 0.1)]
    if n:
        r_in, r_out = h.real('r_in', 0.008, 0.01), h.real('r_out', 0.011,
                                                          0.015)
        # x of each pipe tells it from others
        pos = [(-0.06 + 0.02 * i, 0.045 * (-1) ** i) for i in range(2 * n)]
        pos = [(h.const(x), h.const(y) + h.real('y%d' % i, -0.005, 0.005))
               for i, (x, y) in enumerate(pos)]
        if kind == 'single':
            p = gp.SingleUTube(pos, r_in, r_out, b, *k)
        else:
            c = gp.IndependentMultipleUTube if kind == 'indep' else \
                gp.MultipleUTube
            p = c(pos, r_in, r_out, b, *k, n)
        where = {i: (pos[i], None, r_in, r_out) for i in range(2 * n)}
    else:
        x, y = h.real('x', -0.01, 0.01), h.real('y', -0.01, 0.01)
        r = [h.real('r_%d' % i, 0.02 + 0.016 * i, 0.03 + 0.016 * i)
             for i in range(4)]
        inner, outer = r[:2], r[2:]
        ri, ro = [inner[0], outer[0]], [inner[1], outer[1]]
        if kind == 'coax_in':        # the inlet is the annulus
            ri, ro = ri[::-1], ro[::-1]
        p = gp.Coaxial((x, y), h.arr(ri), h.arr(ro), b, k[0], k[1],
                       h.const(0.2), k[2])
        a, s = (1, 0) if kind == 'coax_in' else (0, 1)
        where = {a: ((x, y), None, inner[0], inner[1]),
                 s: ((x, y), inner[1], outer[0], outer[1])}
    fig = p.visualize_pipes()
    h.true('a figure is returned', fig is not None)
    figs = h.figures()
    h.true('one figure', len(figs) == 1 and len(figs[0].axes) == 1)
    ax = figs[0].axes[0]
    h.true('directions', not any(ax.down))
    C = list(ax.circles)
    h.true('number of circles', len(C) == 1 + 2 * len(where))

    def drawn(c, r):
        """one of the circles is this one"""
        ok = False
        for q, s in C:
            ok = ok | ((q[0] - c[0]) ** 2 + (q[1] - c[1]) ** 2 +
                       (s - r) ** 2 < 1e-14)
        return ok
    h.true('wall of the borehole', drawn((0., 0.), r_b))
    for i, (c, _, r0, r1) in where.items():
        h.true('inner wall', drawn(c, r0))
        h.true('outer wall', drawn(c, r1))
    h.true('numbers', sorted(int(float(s)) for _, _, s in ax.texts) ==
           sorted(where))
    for u, v, s in ax.texts:
        c, a, z, _ = where[int(float(s))]
        d = (u - c[0]) ** 2 + (v - c[1]) ** 2
        h.true('number inside of the pipe', d < z ** 2)
        if a is not None:
            h.true('number in the annulus', d > a ** 2)
