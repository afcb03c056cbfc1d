"""G10, G11: options and arguments of g-functions."""
import numpy as np

from engine.checks_util import harness
from checks.solvers import (ALPHA, ANYH, PIPES, any_clusters, between, field,
                            free, network, respond, same_results, superposed,
                            times)

FLS = ['finite line source solutions are those of heat_transfer (H01 to H05)']
SOLVE = ['solvers.detailed.Detailed.*', 'solvers.similarities.Similarities.*',
         'solvers.equivalent.Equivalent.*',
         'solvers._base_solver._BaseSolver.__init__',
         'solvers._base_solver._BaseSolver.solve',
         'gfunction.gFunction.__init__',
         'gfunction.gFunction.evaluate_g_function']
APPROX = {'': {}, 'N=1': dict(approximate_FLS=True, nFLS=1),
          'N=4': dict(approximate_FLS=True, nFLS=4)}


def two(h, n, tilt=False):
    H = [h.real('H%d' % i, 20. + 150. * i, 150. + 150. * i) for i in range(n)]
    D = h.real('D', 1., 5.)
    r = h.real('r_b', 0.05, 0.1)
    out = []
    for i in range(n):
        a = 0.15 if tilt else 0.
        out.append(h.gt.boreholes.Borehole(
            H[0 if tilt else i], D, r, h.const(6. * i), h.const(0.),
            h.const(a), h.const(1. * i) * h.pi))
    return out


@harness('G10', functions=SOLVE, assumes=FLS, opts=dict(noise=3e-7),
         bounds='one or two boreholes, vertical or inclined, one or two '
         'segments, one time; any lengths, depths, radii and diffusivity; '
         'the options of the configuration',
         quick=[dict(method=m, nb=b, nseg=s, approx=a)
                for m in ('detailed', 'similarities', 'equivalent')
                for b, s in ((1, 1), (2, 1), (1, 2)) for a in APPROX] +
               [dict(method=m, nb=b, nseg=1, tilt=True, mQuad=q, approx=a)
                for m in ('detailed', 'similarities') for a in ('', 'N=1')
                for b in (1, 2)
                for q in (1, 2)] +
               [dict(method=m, nb=2, nseg=2, ratios=r)
                for m in ('detailed', 'similarities', 'equivalent')
                for r in ('same', 'callable')])
def uniform_rate(h, method, nb, nseg, approx='', tilt=False, mQuad=None,
                 ratios=None):
    """UHTR: the g-function is the mean response of all segments, given by
    heat_transfer.finite_line_source with the same options"""
    gt = h.gt
    if tilt:
        h.floats()
    bs = two(h, nb, tilt)
    a = h.real('alpha', 1e-7, 1e-5, typ=(5e-7, 2e-6))
    t = h.real('t_1', 1e6, 1e10, typ=(1e8, 1e9))
    o = dict(APPROX[approx])
    k = dict(approximation=True, N=o['nFLS']) if o else {}
    if mQuad:
        o['mQuad'] = k['M'] = mQuad
    rat = None
    if ratios:
        r = h.real('ratio', 0.1, 0.3)
        rat = h.arr([r, 1. - r])
    h.lazy()
    h.opaque('heat_transfer', 'exp1')
    any_clusters(h)

    def call(n):
        h.true('argument of the function', n == nseg)
        return rat
    g = gt.gfunction.gFunction(
        bs, a, time=h.arr([t]), method=method, boundary_condition='UHTR',
        options=dict(nSegments=nseg, linear_threshold=h.const(0.),
                     segment_ratios=call if ratios == 'callable' else rat,
                     **o))
    seg = [b.segments(nseg, segment_ratios=rat) for b in bs]
    seg = [(i, s) for i, x in enumerate(seg) for s in x]
    tot, L = h.const(0.), h.const(0.)
    # boreholes, if inclined, are symmetrical: the response of one to the
    # other is reciprocal, even with few points
    for i, u in seg:
        L = L + u.H
        for j, v in seg:
            kk = k if method != 'equivalent' or i == j else {}
            tot = tot + u.H * gt.heat_transfer.finite_line_source(
                t, a, v, u, **kk)
    h.eq('g-function', g.gFunc[0], tot / L, tol=1e-6)


@harness('G04', functions=SOLVE[3:], assumes=[ANYH],
         bounds='two boreholes of any radii, any diffusivity, times and '
         'response factors', quick=[
             dict(bc=b, below=k) for b in ('UHTR', 'UBWT') for k in range(3)])
@harness('G10', functions=SOLVE[3:], assumes=[ANYH],
         bounds='two boreholes of any radii, any diffusivity, times and '
         'response factors', quick=[
             dict(bc=b, below=k) for b in ('UHTR', 'UBWT') for k in range(3)])
def default_threshold(h, bc, below):
    """the g-function is linear until max(r_b)**2 / (25 alpha), by default"""
    B = h.gt.boreholes.Borehole
    bs = [B(100., 4., h.real('r%d' % i, 0.05, 0.1), 6. * i, 0.)
          for i in range(2)]
    a = h.real('alpha', 1e-7, 1e-5, typ=(5e-7, 2e-6))
    r = h.maximum(bs[0].r_b, bs[1].r_b)
    lim = r * r / (25. * a)

    def resp(i, j, k, t):
        return (2. if i == j else 0.3) + h.fn(
            'response', [t], lambda x: 0.5 + 1. / (1. + x * 1e-4))
    respond(h, resp, 2)
    t = [lim * h.real('f%d' % k, 0.1 + 0.3 * k, 0.3 + 0.3 * k)
         for k in range(below)]
    t = t + [lim * h.real('f9', 1.5, 100.)]
    t = h.arr(t)
    o = dict(nSegments=1, segment_ratios=None, profiles=True)
    k = dict(time=t, method='detailed', boundary_condition=bc)
    x = h.gt.gfunction.gFunction(bs, a, options=dict(o), **k)
    y = h.gt.gfunction.gFunction(
        bs, a, options=dict(o, linear_threshold=lim), **k)
    same_results(h, x, below + 1, y, below + 1)
    z = h.gt.gfunction.gFunction(
        bs, a, options=dict(o, linear_threshold=None), **k)
    same_results(h, z, below + 1, y, below + 1)


@harness('G04', functions=SOLVE[3:], assumes=[ANYH],
         bounds='two boreholes, any times, of any side of the default '
         'threshold, and any response factors', quick=[
             dict(bc=b, nt=n) for b in ('UHTR', 'UBWT') for n in (1, 2)])
@harness('G10', functions=SOLVE[3:], assumes=[ANYH],
         bounds='two boreholes, any times, of any side of the default '
         'threshold, and any response factors', quick=[
             dict(bc=b, nt=n) for b in ('UHTR', 'UBWT') for n in (1, 2)])
def no_threshold(h, bc, nt):
    """nothing is linear with a threshold of 0"""
    bs = field(h, 2)
    resp = free(h)
    respond(h, resp, 2)
    a = h.real('alpha', 1e-7, 1e-5, typ=(5e-7, 2e-6))
    t = h.real('t', 1., 1e9, typ=(1., 1e4))
    t = [t * (k + 1.) for k in range(nt)]
    g = h.gt.gfunction.gFunction(
        bs, a, time=h.arr(t), method='detailed', boundary_condition=bc,
        options=dict(nSegments=1, segment_ratios=None, profiles=True,
                     linear_threshold=0.))
    L = [b.H for b in bs]
    if bc == 'UHTR':
        for p in range(nt):
            tot = h.const(0.)
            for i in range(2):
                for j in range(2):
                    tot = tot + L[i] * resp(i, j, p, None)
            h.eq('g-function', g.gFunc[p], tot / sum(L))
        return
    q = [[g.solver.Q_b[j, p] for p in range(nt)] for j in range(2)]
    for p in range(nt):
        h.eq('total heat', q[0][p] * L[0] + q[1][p] * L[1], sum(L))
        for i in range(2):
            h.eq('uniform temperature', superposed(h, resp, i, 2, q, p),
                 g.gFunc[p], tol=1e-6)


@harness('G10', functions=SOLVE[:3], assumes=FLS, opts=dict(noise=3e-7),
         bounds='two boreholes, two times; any times between them; kinds of '
         'interpolation: linear, next, previous, nearest',
         quick=[dict(solver=s, kind=k) for s in (
             'Detailed', 'Similarities', 'Equivalent')
             for k in ('linear', 'next', 'previous', 'nearest')])
def kinds(h, solver, kind):
    """response factors are interpolated between times as asked for"""
    bs = two(h, 2)
    a = h.real('alpha', 1e-7, 1e-5, typ=(5e-7, 2e-6))
    t1 = h.real('t_1', 1e6, 1e9, typ=(1e8, 1e9))
    t = [t1, t1 * h.real('f', 2., 3.)]
    h.lazy()
    h.opaque('heat_transfer', 'exp1')
    any_clusters(h)
    s = getattr(h.gt.solvers, solver)(
        bs, None, h.arr(t), 'UBWT', nSegments=1, segment_ratios=None)
    y = s.thermal_response_factors(h.arr(t), a, kind=kind)
    at = h.real('at', 0., 1.)
    z0, z1, z2 = y.y[:, :, 0], y.y[:, :, 1], y.y[:, :, 2]
    n = s.nSources
    for lo, hi, u, v in ((h.const(0.), t[0], z0, z1), (t[0], t[1], z1, z2)):
        x = lo + at * (hi - lo)
        w = y(x)
        for i in range(n):
            for j in range(n):
                h.eq('between times', w[i, j], between(
                    kind, lo, u[i, j], hi, v[i, j], x), tol=2e-6)
    for k in range(2):
        w = y(t[k])
        for i in range(n):
            for j in range(n):
                h.eq('at times', w[i, j], y.y[i, j, k + 1], tol=2e-6)


@harness('G10', functions=SOLVE[3:] + ['utilities.segment_ratios'],
         assumes=[ANYH, PIPES], bounds='any lengths, response factors and '
         'times; two boreholes; options given in the ways of the '
         'configuration', quick=[
             dict(what=w, bc=b) for w in (
                 'disp', 'profiles', 'nSegments list', 'callable',
                 'callable list', 'list of ratios', 'late', 'late array',
                 'twice', 'scalar') for b in ('UHTR', 'UBWT', 'MIFT')
             if not ('call' in w or w == 'list of ratios') or b != 'MIFT'] + [
             dict(what=w, bc='UHTR') for w in ('defaults', 'equal ratios')])
def notation(h, what, bc):
    """values do not depend on how options are given"""
    gt = h.gt
    late = what in ('late', 'late array', 'twice')
    cut = 'call' in what or 'list' in what
    nt = 1 if bc == 'MIFT' or what == 'scalar' or (
        bc == 'UBWT' and cut) else 2
    t = times(h, nt, True)
    big = what == 'defaults'
    nseg = 2 if cut or bc == 'UHTR' else 1
    per = [nseg, nseg]
    if what in ('nSegments list', 'callable list', 'list of ratios'):
        per = [1, 2]
    o1 = dict(nSegments=nseg, segment_ratios=None, profiles=True,
              linear_threshold=h.const(0.))
    o2 = dict(o1)
    n = sum(per)
    if big:
        n = 16
    seen = []

    def resp(i, j, k, tt):
        if big or (n == 4 and bc == 'UBWT'):
            return h.const(1. + (i + 1.) * (j + 2.) / (3. + i + 2. * j))
        return free(h)(i, j, k, tt)

    def factors(self, time, alpha, kind='linear'):
        seen.append([b.H for b in self.boreSegments])
        h.true('number of sources', self.nSources == n)
        m = len(time)
        y = [[[h.const(0.)] + [resp(i, j, k, time[k]) for k in range(m)]
              for j in range(n)] for i in range(n)]
        return h.interp1d(h.np.hstack((h.arr([0.]), time)), h.arr(y), axis=2,
                          kind=kind)
    h.patch(gt.solvers.Detailed, 'thermal_response_factors', factors)
    bs = field(h, 2)
    obj, more = bs, {}
    if bc == 'MIFT':
        obj = network(h, bs)[0]
        more = dict(m_flow_network=h.real('m', 0.05, 5., typ=(0.1, 0.3)),
                    cp_f=h.real('cp', 1000., 5000., typ=(3000., 4500.)))
    R = {1: h.arr([h.const(1.)])}
    if 'call' in what or what == 'list of ratios':
        r = h.real('ratio', 0.1, 0.4)
        R[2] = h.arr([r, 1. - r])
    if what == 'disp':
        o1['disp'] = True
        for mod in (gt.gfunction, gt.solvers._base_solver):
            mod.print = print
            h.patch(mod, 'print', lambda *a, **k: None)
    elif what == 'profiles':
        o1['profiles'] = False
    elif what == 'nSegments list':
        o1['nSegments'] = list(per)
        o2.update(nSegments=list(per), segment_ratios=[
            h.arr([h.frac(1, k)] * k) for k in per])
    elif what == 'callable':
        o1['segment_ratios'] = lambda k: R[k]
        o2['segment_ratios'] = R[2]
    elif what == 'callable list':
        o1.update(segment_ratios=lambda k: R[k], nSegments=list(per))
        o2.update(segment_ratios=[R[k] for k in per], nSegments=list(per))
    elif what == 'list of ratios':
        per = [2, 2]
        o1['segment_ratios'] = [R[2], R[2]]
        o2['segment_ratios'] = R[2]
        n = 4
    elif what == 'equal ratios':
        o2['segment_ratios'] = h.arr([h.frac(1, 2)] * 2)
    elif big:
        o1 = dict(linear_threshold=h.const(0.), profiles=True)
        o2 = dict(o2, nSegments=8,
                  segment_ratios=gt.utilities.segment_ratios(8))
    kw = dict(method='detailed', boundary_condition=bc, **more)
    T = h.arr(t)
    b = gt.gfunction.gFunction(obj, ALPHA, time=T, options=o2, **kw)
    if what == 'scalar':
        a = gt.gfunction.gFunction(obj, ALPHA, time=t[0], options=o1, **kw)
    elif late:
        a = gt.gfunction.gFunction(
            obj, ALPHA, time=h.arr([t[0] * 0.3]) if what == 'twice' else None,
            options=o1, **kw)
        if what == 'twice' and nt > 1:
            a.evaluate_g_function(h.arr([x * 0.7 for x in t]))
        if what == 'late' and nt == 1:
            out = a.evaluate_g_function(t[0])
        else:
            out = a.evaluate_g_function(T)
        h.true('number of returned values', h.np.size(out) == nt)
        out = h.np.reshape(out, -1)
        for p in range(nt):
            h.eq('returned values', out[p], b.gFunc[p], tol=1e-6)
    else:
        a = gt.gfunction.gFunction(obj, ALPHA, time=T, options=o1, **kw)
    h.true('number of times', h.np.size(a.time) == nt)
    for p in range(nt):
        h.eq('times', h.np.reshape(a.time, -1)[p], t[p])
    for x in seen:
        for i in range(n):
            h.eq('lengths of segments', x[i], seen[0][i])
    if what == 'profiles':
        for p in range(nt):
            h.eq('g-function', a.gFunc[p], b.gFunc[p], tol=1e-6)
    else:
        same_results(h, a, nt, b, nt)


# --------------------------------------------------------------------------
def alike(h, bs, c=None):
    """network of boreholes with the same resistances between pipes"""
    net = network(h, bs, c)[0]
    for p in net.p:
        p._Rd = h.arr([[h.const(1.)]])
    return net


BAD = (AssertionError, ValueError)
CHECK = ['gfunction.gFunction._check_inputs',
         'gfunction.gFunction._format_inputs',
         'gfunction.gFunction.evaluate_g_function',
         'solvers._base_solver._BaseSolver._check_inputs',
         'solvers._base_solver._BaseSolver.__init__',
         'solvers.similarities.Similarities._check_solver_specific_inputs',
         'solvers.equivalent.Equivalent._check_solver_specific_inputs']
METHODS = ('detailed', 'similarities', 'equivalent')


def simple_response(h):
    """response factors that do not matter, for all solvers"""
    def factors(self, time, alpha, kind='linear'):
        n, m = self.nSources, len(time)
        y = [[[h.const(0.)] + [h.const(2. if i == j else 0.1) * (k + 1.)
                               for k in range(m)] for j in range(n)]
             for i in range(n)]
        return h.interp1d(h.np.hstack((h.arr([0.]), time)), h.arr(y), axis=2)
    for s in ('Detailed', 'Similarities', 'Equivalent'):
        h.patch(getattr(h.gt.solvers, s), 'thermal_response_factors', factors)


def line(h, n, dx=7.):
    B = h.gt.boreholes.Borehole
    return [B(100., 4., 0.075, dx * i, 0.) for i in range(n)]


def accepted(h, label, good, f):
    """f() works if and only if the input is good"""
    out, e = h.attempt(BAD, f)
    h.true('accepted: ' + label if good else 'refused: ' + label,
           (e is None) == bool(good))
    return out


@harness('G11', functions=CHECK, bounds='three boreholes; any error on the '
         'sum of segment ratios, except within 10 % of the limit of 1e-6; '
         'lists of numbers of segments and of ratios of any length up to '
         'five', quick=[dict(method=m, what=w) for m in METHODS
                        for w in ('sum', 'sum of a list', 'size', 'number',
                                  'numbers', 'lists', 'ratio lists')])
def segments(h, method, what):
    """numbers and ratios of segments are accepted if and only if there is one
    number per borehole, at least 1, and ratios of that number, of sum 1"""
    gt = h.gt
    any_clusters(h, one=True)
    simple_response(h)
    bs = line(h, 3)
    t = h.arr([1e8, 1e9])
    k = dict(method=method, boundary_condition='UHTR', time=t)
    good = True
    o = dict(nSegments=2, segment_ratios=None)
    if what.startswith('sum'):
        e = h.real('error', -0.4, 0.4)
        lim = h.choice('side', ['within', 'above', 'below'])
        good = lim == 'within'
        if good:
            h.assume(e < 0.9e-6)
            h.assume(e > -0.9e-6)
        elif lim == 'above':
            h.assume(e > 1.1e-6)
        else:
            h.assume(e < -1.1e-6)
        r = h.real('r', 0.41, 0.5)
        R = h.arr([r, 1. - r + e])
        o['segment_ratios'] = R
        if what != 'sum':
            at = h.choice('at', [0, 1, 2])
            one = h.arr([r, 1. - r])
            if method == 'equivalent':
                # ratios have to be nearly the same
                h.assume(e < 1e-5)
                h.assume(e > -1e-5)
            o['segment_ratios'] = [R if i == at else one for i in range(3)]
    elif what == 'size':
        n = h.choice('size', [1, 2, 3])
        o['segment_ratios'] = h.arr([h.frac(1, n)] * n)
        good = n == 2
    elif what == 'number':
        o['nSegments'] = h.choice('number', [0, 1, 2, 3])
        good = o['nSegments'] > 0
        if not good:
            o['segment_ratios'] = [h.arr([])] * 3
    else:
        m = h.choice('length', [1, 2, 3, 4, 5])
        good = m == 3
        if what == 'ratio lists':
            o['segment_ratios'] = [h.arr([0.5, 0.5])] * m
        else:
            o['nSegments'] = [2] * m
            if what == 'lists':
                o['segment_ratios'] = [h.arr([0.5, 0.5])] * m
            elif m == 3 and method != 'equivalent':
                o['nSegments'] = h.choice('numbers', [
                    [2, 1, 3], [1, 0, 1], [2, 2, -1]])
                good = min(o['nSegments']) > 0
                if not good:
                    o['segment_ratios'] = [
                        h.arr([h.frac(1, max(n, 1))] * n)
                        for n in o['nSegments']]
    g = accepted(h, 'segments', good, lambda: gt.gfunction.gFunction(
        bs, ALPHA, options=o, **k))
    if good and g is not None:
        h.true('one value each time', len(g.gFunc) == 2)


@harness('G11', functions=CHECK, bounds='any two or three times, not equal; '
         'two boreholes at any distance but within 1 % of the limit',
         quick=[dict(method=m, what=w) for m in METHODS
                for w in ('times', 'late times', 'duplicates')] +
               [dict(method='detailed', what='three times')])
def times_and_places(h, method, what):
    """times have to increase; boreholes have to be apart"""
    gt = h.gt
    any_clusters(h, one=True)
    simple_response(h)
    o = dict(nSegments=1, segment_ratios=None,
             linear_threshold=h.const(0.))
    k = dict(method=method, boundary_condition='UHTR', options=o)
    if what == 'duplicates':
        d = h.real('d', 0., 20., strict=False)
        ang = h.choice('direction', [(1., 0.), (0., -1.), (0.6, 0.8)])
        bs = line(h, 2)
        bs[1] = gt.boreholes.Borehole(
            100., 4., 0.075, d * ang[0], d * ang[1])
        far = h.flag('far')
        # a borehole is a duplicate if closer than its radius
        if far:
            h.assume(d > 0.0758)
        else:
            h.assume(d < 0.0742)
        accepted(h, 'distance', far, lambda: gt.gfunction.gFunction(
            bs, ALPHA, time=h.arr([1e8]), **k))
        return
    n = 3 if what == 'three times' else 2
    t = [h.real('t%d' % i, 1e3, 1e9) for i in range(n)]
    up = h.choice('step', [None] + list(range(n - 1)))
    for i in range(n - 1):
        if i == up:
            h.assume(t[i] > t[i + 1])
        elif up is None or i < up:
            h.assume(t[i] < t[i + 1])
    T = h.arr(t)
    bs = line(h, 2)
    if what == 'late times':
        g = gt.gfunction.gFunction(bs, ALPHA, **k)
        accepted(h, 'times', up is None, lambda: g.evaluate_g_function(T))
    else:
        accepted(h, 'times', up is None, lambda: gt.gfunction.gFunction(
            bs, ALPHA, time=T, **k))


@harness('G11', functions=CHECK, assumes=[PIPES], bounds='networks of two or '
         'three boreholes, any flow rates', quick=[
             dict(method=m, what=w) for m in METHODS for w in (
                 'no flow', 'both flows', 'no capacity', 'circuits',
                 'many circuits', 'no network', 'condition', 'method')])
def networks_of_boreholes(h, method, what):
    """flow rates are accepted if and only if they are complete, given once,
    and as many as there are circuits"""
    gt = h.gt
    any_clusters(h, one=True)
    simple_response(h)
    bs = line(h, 3)
    net = alike(h, bs)
    m = h.real('m', 0.05, 5., typ=(0.1, 0.3))
    cp = h.real('cp', 1000., 5000., typ=(3000., 4500.))
    good = h.flag('good')
    o = dict(nSegments=1, segment_ratios=None,
             linear_threshold=h.const(0.))
    k = dict(method=method, boundary_condition='MIFT', options=o, cp_f=cp,
             m_flow_network=m, time=h.arr([1e8]))
    obj = net
    if what in ('circuits', 'many circuits'):
        n = 3 if good else h.choice('number', [1, 2, 4])
        k['m_flow_network'] = None
        k['m_flow_borehole'] = h.arr([m] * n)
        if what == 'many circuits':
            k['m_flow_borehole'] = h.arr([[m] * n, [2. * m] * n])
    elif good:
        pass
    elif what == 'no flow':
        k['m_flow_network'] = None
    elif what == 'both flows':
        k['m_flow_borehole'] = h.arr([m, m, m])
    elif what == 'no capacity':
        k['cp_f'] = None
    elif what == 'no network':
        if method == 'equivalent':
            return
        obj = bs
    elif what == 'condition':
        k['boundary_condition'] = h.choice('condition', ['', 'UBWTS', 'UHF'])
    else:
        k['method'] = h.choice('method', ['', method + 's', 'fast'])
    accepted(h, what, good, lambda: gt.gfunction.gFunction(obj, ALPHA, **k))


@harness('G11', functions=CHECK, bounds='the values of the configuration',
         quick=[dict(method=m, name=n) for m in METHODS for n in (
             'nFLS', 'disTol', 'tol', 'kClusters', 'inclined')
             if not (m == 'detailed' and n not in ('nFLS', 'inclined') or
                     m == 'similarities' and n == 'kClusters')])
def values(h, method, name):
    """numbers of terms and tolerances are accepted if and only if they make
    sense; method 'equivalent' refuses what it can not solve"""
    gt = h.gt
    any_clusters(h, one=True)
    simple_response(h)
    bs = line(h, 2)
    o = dict(nSegments=2, segment_ratios=None,
             linear_threshold=h.const(0.))
    if name == 'inclined':
        tilt = h.real('tilt', 0., 0.3, strict=False)
        flat = h.flag('vertical')
        h.assume(tilt < 1e-7 if flat else tilt > 1e-3)
        at = h.choice('at', [0, 1])
        bs[at] = gt.boreholes.Borehole(100., 4., 0.075, 7. * at, 0., tilt,
                                       0.2)
        good = flat or method != 'equivalent'
    else:
        v, good = h.choice('value', {
            'nFLS': [(0, False), (1, True), (10, True), (25, True),
                     (26, False), (-1, False)],
            'disTol': [(0., False), (0.02, True), (-0.01, False)],
            'tol': [(0., False), (1e-4, True), (-1e-6, False)],
            'kClusters': [(-1, False), (0, True), (3, True)]}[name])
        o[name] = v
    accepted(h, name, good, lambda: gt.gfunction.gFunction(
        bs, ALPHA, time=h.arr([1e8]), method=method,
        boundary_condition='UHTR', options=o))


@harness('G11', functions=CHECK, bounds='two boreholes; ratios that differ by '
         'any amount, except within a factor 2 of the tolerance of '
         'numpy.allclose', quick=[dict(what=w) for w in ('ratios', 'numbers',
                                                         'series')])
def equivalent_only(h, what):
    """method 'equivalent' refuses different segments per borehole"""
    gt = h.gt
    any_clusters(h, one=True)
    simple_response(h)
    bs = line(h, 2)
    t = h.arr([1e8])
    if what == 'series':
        m = h.real('m', 0.05, 5., typ=(0.1, 0.3))
        cp = h.real('cp', 1000., 5000., typ=(3000., 4500.))
        c = h.choice('connections', [[-1, -1], [-1, 0], [1, -1]])
        net = alike(h, bs, c)
        accepted(h, 'series', c == [-1, -1], lambda: gt.solvers.Equivalent(
            bs, net, t, 'MIFT', m_flow_network=m, cp_f=cp, nSegments=1,
            segment_ratios=None))
        return
    good = h.flag('same')
    if what == 'numbers':
        o = dict(nSegments=[2, 2] if good else h.choice('n', [[1, 2], [2, 3]]),
                 segment_ratios=None)
    else:
        r = h.real('r', 0.3, 0.7)
        e = h.real('e', -0.2, 0.2)
        if good:
            h.assume(e < 1e-7)
            h.assume(e > -1e-7)
        else:
            h.assume(e * e > 1e-8)
        o = dict(nSegments=2, segment_ratios=[
            h.arr([r, 1. - r]), h.arr([r + e, 1. - r - e])])
    accepted(h, what, good, lambda: gt.gfunction.gFunction(
        bs, ALPHA, time=t, method='equivalent', boundary_condition='UHTR',
        options=o))


@harness('G11', functions=CHECK[1:2], assumes=[PIPES, ANYH],
         bounds='two boreholes, any flow rates', quick=[
             dict(why=w) for w in ('none', 'series', 'flows', 'two flows',
                                   'pipes')])
def other_method(h, why):
    """'similarities' is used for networks that 'equivalent' can not solve"""
    gt = h.gt
    any_clusters(h, one=True)
    simple_response(h)
    bs = line(h, 2)
    c = h.choice('connections', [[-1, 0], [1, -1]]) if why == 'series' \
        else None
    net = alike(h, bs, c)
    m = h.real('m', 0.05, 5., typ=(0.1, 0.3))
    cp = h.real('cp', 1000., 5000., typ=(3000., 4500.))
    k = dict(boundary_condition='MIFT', cp_f=cp, time=h.arr([1e8]),
             options=dict(nSegments=1, segment_ratios=None,
                          linear_threshold=h.const(0.)))
    if why in ('flows', 'two flows'):
        m2 = m * h.real('ratio', 1.5, 3.)
        at = h.choice('at', [0, 1])
        f = [m2, m] if at else [m, m2]
        k['m_flow_borehole'] = h.arr(f if why == 'flows' else [[m, m], f])
    else:
        k['m_flow_network'] = m
    if why == 'pipes':
        R = h.real('R', 1.2, 5.)
        for i, p in enumerate(net.p):
            p._Rd = h.arr([[R if i == h_at(h) else h.const(1.)]])
    g = gt.gfunction.gFunction(net, ALPHA, method='equivalent', **k)
    want = gt.solvers.Equivalent if why == 'none' else gt.solvers.Similarities
    h.true('solver', isinstance(g.solver, want))
    x = gt.gfunction.gFunction(net, ALPHA, method='similarities', **k)
    h.eq('g-function', g.gFunc, x.gFunc, tol=1e-6)


def h_at(h):
    return h.choice('different', [0, 1])
