"""Sparse Laurent polynomials and rational functions over named atoms.

A monomial is a sorted tuple of (atom_index, exponent); exponents may be
negative.  A polynomial is a dict monomial -> int/Fraction.  A rational
function R is  num / prod(factor_i ** e_i)  with interned multi-term factors.
Atoms may carry a rewriting rule  atom**2 -> polynomial  (square roots, sin).
"""
from fractions import Fraction

MAX_TERMS = 60000


class Blowup(Exception):
    """Normal form grew past MAX_TERMS."""


class Table:
    """Per-run registry of atoms and denominators."""

    def __init__(self):
        self.atoms = []
        self.bykey = {}
        self.factors = []      # list of dict polys
        self.fbykey = {}

    def clear(self):
        self.__init__()


T = Table()

ONE = {(): 1}
ZERO = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x = a[i]
        y = b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def mono_inv(a):
    return tuple((i, -e) for i, e in a)


def _needs_reduce(m):
    atoms = T.atoms
    for i, e in m:
        if e > 1 or e < 0:
            if atoms[i].square is not None:
                return True
    return False


def _reduce_mono(m):
    """Return polynomial equal to monomial m with algebraic atoms reduced.
    Only positive exponents are reduced here."""
    atoms = T.atoms
    for k, (i, e) in enumerate(m):
        if e > 1 and atoms[i].square is not None:
            rest = m[:k] + (((i, e & 1),) if e & 1 else ()) + m[k + 1:]
            p = {rest: 1}
            sq = atoms[i].square
            for _ in range(e >> 1):
                p = pmul(p, sq)
            return p
    return {m: 1}


def padd(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def psub(a, b):
    return padd(a, pneg(b))


def pscale(a, c):
    if not c:
        return {}
    if c == 1:
        return a
    return {m: v * c for m, v in a.items()}


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return pscale(b, a[()])
    if len(b) == 1 and () in b:
        return pscale(a, b[()])
    r = {}
    pend = None
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            if T_has_alg[0] and _needs_reduce(m):
                if pend is None:
                    pend = {}
                pend[m] = pend.get(m, 0) + c1 * c2
                continue
            v = r.get(m)
            if v is None:
                r[m] = c1 * c2
            else:
                r[m] = v + c1 * c2
        if len(r) > MAX_TERMS:
            raise Blowup('polynomial product exceeds %d terms' % MAX_TERMS)
    r = {m: c for m, c in r.items() if c}
    if pend:
        for m, c in pend.items():
            if not c:
                continue
            q = _reduce_mono(m)
            if len(q) == 1 and m in q:
                r = padd(r, {m: c})
            else:
                r = padd(r, pscale(q, c))
    return r


T_has_alg = [False]


def pconst(c):
    return {(): c} if c else {}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def const_of(p):
    return p.get((), 0) if p else 0


def ppow(p, n):
    r = ONE
    while n:
        if n & 1:
            r = pmul(r, p)
        n >>= 1
        if n:
            p = pmul(p, p)
    return r


def pkey(p):
    return frozenset(p.items())


def patoms(p):
    s = set()
    for m in p:
        for i, _ in m:
            s.add(i)
    return s


def content_split(p):
    """p = c * mono * q with q primitive (leading coefficient 1, no common
    monomial). Returns (c, mono, q)."""
    # common monomial: minimal exponents
    it = iter(p)
    first = next(it)
    mins = dict(first)
    seen = set(mins)
    allm = list(p)
    idx = set()
    for m in allm:
        for i, _ in m:
            idx.add(i)
    com = {}
    for i in idx:
        com[i] = None
    for m in allm:
        d = dict(m)
        for i in idx:
            e = d.get(i, 0)
            if com[i] is None or e < com[i]:
                com[i] = e
    cm = tuple(sorted((i, e) for i, e in com.items() if e))
    if T_has_alg[0]:
        cm = tuple((i, e) for i, e in cm if T.atoms[i].square is None)
    if cm:
        inv = mono_inv(cm)
        q = {mono_mul(m, inv): c for m, c in p.items()}
    else:
        q = p
    lead = max(q)
    c = q[lead]
    if c != 1:
        if isinstance(c, int):
            c = Fraction(c)
        q = {m: _fr(v / c) for m, v in q.items()}
    return _fr(c), cm, q


def _fr(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def intern_factor(q):
    k = pkey(q)
    f = T.fbykey.get(k)
    if f is None:
        f = len(T.factors)
        T.factors.append(q)
        T.fbykey[k] = f
    return f


def exact_div(p, f, limit=4000):
    """Exact multivariate division p / f (Laurent monomials allowed), or None."""
    if not p:
        return {}
    if len(p) < 2 and len(f) > 1:
        return None
    # order: compare by dense exponent vectors over involved atoms
    idx = sorted(patoms(p) | patoms(f))
    if not patoms(f) <= patoms(p):
        return None
    pos = {i: k for k, i in enumerate(idx)}
    n = len(idx)

    def vec(m):
        v = [0] * n
        for i, e in m:
            v[pos[i]] = e
        return tuple(v)
    fv = [(vec(m), c) for m, c in f.items()]
    fv.sort(reverse=True)
    lead, lc = fv[0]
    # per-variable degree spans must fit
    import heapq
    pv = {vec(m): c for m, c in p.items()}
    lo_f = [min(v[k] for v, _ in fv) for k in range(n)]
    hi_f = [max(v[k] for v, _ in fv) for k in range(n)]
    lo_p = [min(v[k] for v in pv) for k in range(n)]
    hi_p = [max(v[k] for v in pv) for k in range(n)]
    qlo = [lo_p[k] - lo_f[k] for k in range(n)]
    qhi = [hi_p[k] - hi_f[k] for k in range(n)]
    if any(qlo[k] > qhi[k] for k in range(n)):
        return None
    heap = [tuple(-x for x in v) for v in pv]
    heapq.heapify(heap)
    q = {}
    steps = 0
    while heap:
        hv = heapq.heappop(heap)
        v = tuple(-x for x in hv)
        c = pv.pop(v, None)
        if not c:
            continue
        qv = tuple(x - y for x, y in zip(v, lead))
        for k in range(n):
            if qv[k] < qlo[k] or qv[k] > qhi[k]:
                return None
        qc = Fraction(c) / lc
        q[qv] = qc
        steps += 1
        if steps > limit:
            return None
        for w, d in fv[1:]:
            t = tuple(x + y for x, y in zip(qv, w))
            o = pv.get(t)
            if o is None:
                pv[t] = -qc * d
                heapq.heappush(heap, tuple(-x for x in t))
            else:
                o = o - qc * d
                if o:
                    pv[t] = o
                else:
                    pv[t] = 0
    out = {}
    for qv, c in q.items():
        out[tuple((idx[k], qv[k]) for k in range(n) if qv[k])] = _fr(c)
    return out


class R:
    """Rational function num / prod factors."""
    __slots__ = ('num', 'den', '_key')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den          # tuple of (factor_id, exp>0), sorted
        self._key = None

    @staticmethod
    def const(c):
        return R({(): c} if c else {})

    @staticmethod
    def atom(i):
        return R({((i, 1),): 1})

    def is_const(self):
        return not self.den and is_const(self.num)

    def const_value(self):
        return Fraction(const_of(self.num))

    def is_zero(self):
        return not self.num

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.num.items()), self.den)
        return self._key

    def atoms(self):
        s = patoms(self.num)
        for f, _ in self.den:
            s |= patoms(T.factors[f])
        return s

    def den_poly(self):
        p = ONE
        for f, e in self.den:
            p = pmul(p, ppow(T.factors[f], e))
        return p

    def __neg__(self):
        return R(pneg(self.num), self.den)

    def __add__(self, o):
        if not self.num:
            return o
        if not o.num:
            return self
        if self.den == o.den:
            n = padd(self.num, o.num)
            if not n:
                return R({})
            return _cancel(n, self.den, True) if self.den else R(n)
        d1 = dict(self.den)
        d2 = dict(o.den)
        n1, n2 = self.num, o.num
        l = dict(d1)
        for f, e in d2.items():
            e1 = l.get(f, 0)
            if e > e1:
                n1 = pmul(n1, ppow(T.factors[f], e - e1))
                l[f] = e
        for f, e in d1.items():
            e2 = d2.get(f, 0)
            if e > e2:
                n2 = pmul(n2, ppow(T.factors[f], e - e2))
        n = padd(n1, n2)
        if not n:
            return R({})
        return _cancel(n, tuple(sorted(l.items())), True)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.num or not o.num:
            return R({})
        if not self.den and not o.den:
            return _fix(pmul(self.num, o.num), ())
        # cross-cancel first
        a, bd = _xcancel(self.num, o.den)
        b, ad = _xcancel(o.num, self.den)
        d = dict(ad)
        for f, e in bd:
            d[f] = d.get(f, 0) + e
        return _fix(pmul(a, b), tuple(sorted(d.items())))

    def inv(self):
        if not self.num:
            raise ZeroDivisionError('symbolic division by exact zero')
        num = ONE
        for f, e in self.den:
            num = pmul(num, ppow(T.factors[f], e))
        if len(self.num) == 1:
            (m, c), = self.num.items()
            c = _fr(Fraction(1) / c)
            out = R(pscale(num, c))
            for i, e in m:
                at = T.atoms[i]
                if at.square is not None and e > 0:
                    # 1/s = s / s^2
                    s2 = R(at.square)
                    base = R({((i, 1),): 1}) * s2.inv()
                    for _ in range(e):
                        out = out * base
                else:
                    out = out * R({((i, -e),): 1})
            return out
        c, cm, q = content_split(self.num)
        f = intern_factor(q)
        n = pscale(num, _fr(Fraction(1) / c))
        r = R(n, ((f, 1),))
        if cm:
            r = r * R({mono_inv(cm): 1})
        return r

    def __truediv__(self, o):
        if o.is_const():
            c = o.const_value()
            if c == 0:
                raise ZeroDivisionError('symbolic division by exact zero')
            return R(pscale(self.num, _fr(1 / c)), self.den)
        if self.num and self.num == o.num and self.den == o.den:
            return R(ONE)
        return self * o.inv()

    def pow(self, n):
        if n < 0:
            return self.inv().pow(-n)
        r = R(ONE)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r


def _fix(n, den):
    """Handle negative exponents of algebraic atoms (introduced through
    Laurent factors) -- they never appear because inv() rewrites them."""
    if not n:
        return R({})
    return R(n, den)


CANCEL_LIMIT = 800


def _cancel(n, den, light=False):
    """Remove common factors between numerator and denominators."""
    if len(n) > CANCEL_LIMIT:
        return R(n, den)
    out = []
    for f, e in den:
        fp = T.factors[f]
        while e > 0:
            if len(n) < 2:
                break
            q = exact_div(n, fp)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            out.append((f, e))
    return R(n, tuple(out))


def _xcancel(n, den):
    if not den or len(n) > CANCEL_LIMIT:
        return n, den
    out = []
    for f, e in den:
        fp = T.factors[f]
        while e > 0 and len(n) >= 2:
            q = exact_div(n, fp)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            out.append((f, e))
    return n, tuple(out)
