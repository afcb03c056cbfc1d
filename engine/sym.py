"""Symbolic reals, lazy booleans, numpy object arrays and the path explorer."""
import math
import numbers
import sys
import time
from fractions import Fraction

import numpy as np

try:
    import z3
except ImportError:                                    # pragma: no cover
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3

from . import poly as P
from .poly import R, T, Blowup


class Unsupported(Exception):
    """The code under test used something the encoder cannot express."""


class PathAbort(BaseException):
    """Ends the current path (infeasible assumption)."""


class PathLimit(Exception):
    """Too many paths / decisions."""


class Inconclusive(Exception):
    pass


# --------------------------------------------------------------------------
# Atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ('idx', 'name', 'z', 'square', 'pos', 'nonneg', 'key',
                 'axioms', 'ev', 'base', 'lo', 'hi', 'deps', 'diff', 'kind',
                 'args', 'nonzero', 'is_int')

    def __init__(self):
        self.square = None
        self.pos = self.nonneg = self.nonzero = False
        self.axioms = []
        self.ev = None
        self.base = False
        self.lo = self.hi = None
        self.deps = frozenset()
        self.diff = None
        self.kind = 'var'
        self.args = ()
        self.is_int = False


def new_atom(key, name, kind='var', args=(), pos=False, nonneg=False,
             is_int=False):
    i = T.bykey.get(key)
    if i is not None:
        return T.atoms[i], False
    a = Atom()
    a.idx = len(T.atoms)
    a.name = name
    a.kind = kind
    a.args = args
    a.pos = pos
    a.nonneg = nonneg or pos
    a.nonzero = pos
    a.key = key
    a.is_int = is_int
    if is_int:
        a.z = z3.ToReal(z3.Int('%s' % name))
    else:
        a.z = z3.Real('%s' % name)
    d = set()
    for x in args:
        if isinstance(x, R):
            for j in x.atoms():
                d.add(j)
                d |= T.atoms[j].deps
    a.deps = frozenset(d)
    T.atoms.append(a)
    T.bykey[key] = a.idx
    return a, True


# --------------------------------------------------------------------------
# z3 conversion
# --------------------------------------------------------------------------
def _zc(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    return z3.RealVal('%d/%d' % (c.numerator, c.denominator))


def poly_z3(p):
    """Polynomial with non-negative exponents to z3."""
    if not p:
        return z3.RealVal(0)
    terms = []
    for m, c in p.items():
        fs = []
        for i, e in m:
            z = T.atoms[i].z
            assert e > 0
            fs.extend([z] * e)
        if not fs:
            terms.append(_zc(c))
        elif c == 1:
            terms.append(fs[0] if len(fs) == 1 else z3.Product(fs))
        else:
            terms.append(z3.Product([_zc(c)] + fs))
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def clear_neg(p, even=False):
    """Multiply p by a monomial so all exponents are >= 0.  If even, the
    multiplier has a non-negative value (even powers of atoms that are not
    known to be positive)."""
    mins = {}
    for m in p:
        for i, e in m:
            if e < 0 and e < mins.get(i, 0):
                mins[i] = e
    if not mins:
        return p
    mul = []
    for i, e in sorted(mins.items()):
        k = -e
        if even and not T.atoms[i].nonneg and k & 1:
            k += 1
        mul.append((i, k))
    mul = tuple(mul)
    return {P.mono_mul(m, mul): c for m, c in p.items()}


def r_z3(r):
    """General term (uses z3 division); for models / atoms' axioms."""
    n = r.num
    mins = {}
    for m in n:
        for i, e in m:
            if e < 0 and e < mins.get(i, 0):
                mins[i] = e
    num = poly_z3(clear_neg(n))
    den = []
    for i, e in mins.items():
        den.extend([T.atoms[i].z] * (-e))
    for f, e in r.den:
        q = T.factors[f]
        qm = {}
        for m in q:
            for i, ex in m:
                if ex < 0 and ex < qm.get(i, 0):
                    qm[i] = ex
        # factors are primitive: no negative exponents unless algebraic
        assert not qm
        den.extend([poly_z3(q)] * e)
    if not den:
        return num
    return num / (den[0] if len(den) == 1 else z3.Product(den))


def syn_sign(p):
    """+1 / -1 / 0 / None; strict sign of polynomial from syntactic facts."""
    if not p:
        return 0
    s = None
    strict = False
    for m, c in p.items():
        pos = True
        for i, e in m:
            a = T.atoms[i]
            if not a.pos:
                if e % 2 == 0 or a.nonneg:
                    pos = False if not a.nonzero else pos
                else:
                    return None
        t = 1 if c > 0 else -1
        if s is None:
            s = t
        elif s != t:
            return None
        strict = strict or pos
    return s if strict else None


def syn_nonneg(p):
    """True if p >= 0 syntactically."""
    for m, c in p.items():
        if c < 0:
            return False
        for i, e in m:
            a = T.atoms[i]
            if e % 2 and not a.nonneg:
                return False
    return True


# --------------------------------------------------------------------------
# Booleans
# --------------------------------------------------------------------------
class SBool:
    __slots__ = ('z', 'f')

    def __init__(self, z, f=None):
        self.z = z
        self.f = f

    def __bool__(self):
        return CTX.branch(self.z)

    def __invert__(self):
        return SBool(z3.Not(self.z))

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return SBool(z3.And(self.z, o.z))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        return SBool(z3.Or(self.z, o.z))
    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        if isinstance(o, SBool):
            return SBool(self.z == o.z)
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def all(self):
        return self
    any = all

    def item(self):
        return bool(self)


def zbool(x):
    """bool-like -> z3 Bool"""
    if isinstance(x, SBool):
        return x.z
    return z3.BoolVal(bool(x))


def sand(xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            out.append(x.z)
        elif not x:
            return False
    if not out:
        return True
    return SBool(z3.And(out)) if len(out) > 1 else SBool(out[0])


def sor(xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            out.append(x.z)
        elif x:
            return True
    if not out:
        return False
    return SBool(z3.Or(out)) if len(out) > 1 else SBool(out[0])


# --------------------------------------------------------------------------
# Symbolic reals
# --------------------------------------------------------------------------
def frac(x):
    if isinstance(x, Fraction):
        return P._fr(x)
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    return P._fr(Fraction(repr(float(x))))


def is_special(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


NUM = (int, float, Fraction, np.integer, np.floating, np.bool_)


def lift(x):
    """Any real scalar -> Sym (inf/nan stay Python floats)."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SBool):
        return Sym(R.const(int(bool(x))))
    if isinstance(x, NUM):
        if is_special(x):
            return float(x)
        return Sym(R.const(frac(x)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag == 0:
            return lift(float(x.real))
        return mkc(float(x.real), float(x.imag))
    raise Unsupported('cannot lift %r' % type(x))


class Sym:
    __slots__ = ('r',)
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(object)

    def __init__(self, r):
        self.r = r

    # numpy scalar-like interface
    def item(self):
        return self

    def flatten(self):
        return mkarr([self])
    ravel = flatten

    def reshape(self, *a, **k):
        return mkarr([self]).reshape(*a, **k)

    def copy(self):
        return self

    def astype(self, t, *a, **k):
        from .shim import cast_scalar
        return cast_scalar(self, t)

    def sum(self, *a, **k):
        return self

    mean = max = min = squeeze = sum

    def tolist(self):
        return self

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return lift(0)

    def conjugate(self):
        return self
    conj = conjugate

    def __getitem__(self, k):
        a = np.empty((), object)
        a[()] = self
        return wrap(a[k])

    def is_integer(self):
        return bool(self == self.floor())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # arithmetic
    def _bin(self, o, op, rev=False):
        if isinstance(o, Sym):
            b = o
        elif isinstance(o, NUM):
            if is_special(o):
                return special_bin(self, float(o), op, rev)
            b = Sym(R.const(frac(o)))
        elif isinstance(o, SBool):
            b = lift(o)
        else:
            return NotImplemented
        x, y = (b, self) if rev else (self, b)
        if op == '+':
            return Sym(x.r + y.r)
        if op == '-':
            return Sym(x.r - y.r)
        if op == '*':
            return Sym(x.r * y.r)
        if op == '/':
            if y.r.is_zero():
                if CTX is not None and CTX.div0 == 'nan':
                    if x.r.is_zero():
                        return math.nan
                    return math.inf
            CTX.note_div(y.r)
            if len(y.r.num) == 2 and not y.r.den and \
                    not const_mode_float() and \
                    T.bykey.get(('log', _rkey(R.const(5)))) is not None and \
                    y.r.num == slog(lift(10)).r.num:
                return x * inv_log10()
            return Sym(x.r / y.r)
        raise AssertionError(op)

    def __add__(self, o):
        return self._bin(o, '+')

    def __radd__(self, o):
        return self._bin(o, '+', True)

    def __sub__(self, o):
        return self._bin(o, '-')

    def __rsub__(self, o):
        return self._bin(o, '-', True)

    def __mul__(self, o):
        return self._bin(o, '*')

    def __rmul__(self, o):
        return self._bin(o, '*', True)

    def __truediv__(self, o):
        return self._bin(o, '/')

    def __rtruediv__(self, o):
        return self._bin(o, '/', True)

    def __floordiv__(self, o):
        q = self._bin(o, '/')
        return q if q is NotImplemented else q.floor()

    def __rfloordiv__(self, o):
        q = self._bin(o, '/', True)
        return q if q is NotImplemented else q.floor()

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __mod__(self, o):
        q = self._bin(o, '/')
        if q is NotImplemented:
            return q
        return self - q.floor() * o

    def __rmod__(self, o):
        return lift(o) % self

    def __neg__(self):
        return Sym(-self.r)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __pow__(self, o):
        return spow(self, o)

    def __rpow__(self, o):
        return spow(lift(o), self)

    # comparisons
    def _cmp(self, o, op):
        if isinstance(o, Sym):
            b = o
        elif isinstance(o, NUM):
            if is_special(o):
                if math.isnan(o):
                    return op == '!='
                big = o > 0
                return {'<': big, '<=': big, '>': not big, '>=': not big,
                        '==': False, '!=': True}[op]
            b = Sym(R.const(frac(o)))
        else:
            return NotImplemented
        return compare(self.r - b.r, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __hash__(self):
        if self.r.is_const():
            return hash(Fraction(self.r.const_value()))
        return hash(self.r.key())

    def __bool__(self):
        return bool(self != 0)

    def _conc(self):
        if self.r.is_const():
            return self.r.const_value()
        return None

    def __float__(self):
        c = self._conc()
        if c is None:
            raise Unsupported('float() of a symbolic value')
        return float(c)

    def __int__(self):
        return CTX.concretize_int(self.trunc())

    def __index__(self):
        c = self._conc()
        if c is not None:
            if c.denominator != 1:
                raise TypeError('non-integer index')
            return int(c)
        return CTX.concretize_int(self)

    def __round__(self, n=None):
        c = self._conc()
        if c is None:
            from .shim import _round1, s_int
            return _round1(self, n) if n is not None else s_int(
                _round1(self))
        v = round(c, n) if n is not None else round(c)
        return lift(v) if n is not None else v

    def floor(self):
        return sfloor(self)

    def ceil(self):
        return -sfloor(-self)

    def trunc(self):
        c = self._conc()
        if c is not None:
            return lift(math.trunc(c))
        if self >= 0:
            return sfloor(self)
        return -sfloor(-self)

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def sqrt(self):
        return ssqrt(self)

    def exp(self):
        return sexp(self)

    def log(self):
        return slog(self)

    def sin(self):
        return ssincos(self)[0]

    def cos(self):
        return ssincos(self)[1]

    def __repr__(self):
        return 'Sym(%s)' % show(self.r)

    def __format__(self, spec):
        c = self._conc()
        if c is not None:
            return format(float(c), spec)
        return repr(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .shim import array_function
        return array_function(func, args, kwargs)


def show(r, lim=6):
    def sp(p):
        ts = []
        for k, (m, c) in enumerate(sorted(p.items())):
            if k >= lim:
                ts.append('...')
                break
            ts.append('*'.join([str(c)] + [
                T.atoms[i].name + ('^%d' % e if e != 1 else '')
                for i, e in m]))
        return ' + '.join(ts) or '0'
    s = sp(r.num)
    if r.den:
        s = '(%s)/(%s)' % (s, ')('.join(
            '%s)^%d' % (sp(T.factors[f]), e) for f, e in r.den))
    return s


def special_bin(x, o, op, rev):
    if math.isnan(o):
        return o
    if op in '+-':
        if op == '-' and not rev:
            return -o
        return o
    if op == '*':
        z = x.r.is_zero()
        if z:
            return math.nan
        return o if bool(x > 0) else -o
    if op == '/':
        if rev:          # inf / x
            return o if bool(x > 0) else -o
        return lift(0)
    raise Unsupported(op)


def compare(d, op):
    """sign test of rational function d"""
    if d.is_const():
        v = d.const_value()
        return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0,
                '==': v == 0, '!=': v != 0}[op]
    if op in ('==', '!='):
        s = syn_sign(d.num)
        if s is not None and s != 0:
            return op == '!='
        p = clear_neg(d.num)
        e = poly_z3(p) == 0
        return SBool(e if op == '==' else z3.Not(e))
    num = d.num
    extra = []
    sgn = 1
    for f, e in d.den:
        if e & 1:
            s = syn_sign(T.factors[f])
            if s is None or s == 0:
                extra.append(T.factors[f])
            else:
                sgn *= s
    s = syn_sign(num)
    if not extra and s is not None:
        v = s * sgn
        return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0}[op]
    if not extra and op in ('>=', '<') and sgn > 0 and syn_nonneg(num):
        return op == '>='
    if not extra and op in ('<=', '>') and sgn < 0 and syn_nonneg(num):
        return op == '<='
    e = poly_z3(clear_neg(num, even=True))
    for q in extra:
        e = e * poly_z3(clear_neg(q, even=True))
    if sgn < 0:
        e = -e
    return SBool({'<': e < 0, '<=': e <= 0, '>': e > 0, '>=': e >= 0}[op])


# --------------------------------------------------------------------------
# Elementary functions
# --------------------------------------------------------------------------
def _rkey(r):
    return r.key()


def const_mode_float():
    return CTX is not None and (CTX.pinned or CTX.floats)


def PI():
    if const_mode_float():
        return lift(math.pi)
    a, new = new_atom(('pi',), 'pi', 'const', pos=True)
    if new:
        a.axioms = [a.z > z3.RealVal('3.14159265'),
                    a.z < z3.RealVal('3.14159266')]
        a.ev = lambda env: math.pi
    return Sym(R.atom(a.idx))


def inv_log10():
    """1 / log(10)"""
    if const_mode_float():
        return lift(1. / math.log(10.))
    a, new = new_atom(('inv_log10',), 'inv_log10', 'const', pos=True)
    if new:
        a.axioms = [a.z > z3.RealVal('0.4342944819'),
                    a.z < z3.RealVal('0.4342944820')]
        a.ev = lambda env: 1. / math.log(10.)
    return Sym(R.atom(a.idx))


def slog10(x):
    x = lift(x)
    if x.r.is_const() and not const_mode_float():
        v = x.r.const_value()
        k = 0
        while v >= 10 and k < 400:
            v, k = v / 10, k + 1
        while 0 < v < 1 and k > -400:
            v, k = v * 10, k - 1
        if v == 1:
            return lift(k)
    return slog(x) * inv_log10()


def EULER():
    return uconst('euler_gamma', float(np.euler_gamma))


def uconst(name, val):
    """opaque constant with tight numeric bounds"""
    if const_mode_float():
        return lift(val)
    a, new = new_atom(('uconst', name), name, 'const',
                      pos=val > 0)
    if new:
        d = abs(val) * 1e-12 + 1e-300
        a.axioms = [a.z > _zc(Fraction(val - d)), a.z < _zc(Fraction(val + d))]
        a.ev = lambda env: val
    return Sym(R.atom(a.idx))


def _isq(n):
    s = math.isqrt(n)
    return s if s * s == n else None


def ssqrt(x):
    if not isinstance(x, Sym):
        return lift(math.sqrt(x)) if not is_special(x) else math.sqrt(x)
    r = x.r
    if r.is_const():
        c = Fraction(r.const_value())
        if c < 0:
            return math.nan
        a, b = _isq(c.numerator), _isq(c.denominator)
        if a is not None and b is not None:
            return lift(Fraction(a, b))
        if const_mode_float():
            return lift(math.sqrt(c))
    # sqrt(num/den) = sqrt(num*den)/|den|
    out = R(P.ONE)
    num = r.num
    for f, e in r.den:
        base = Sym(R(T.factors[f]))
        if e & 1:
            num = P.pmul(num, T.factors[f])
            e += 1
        out = out / sabs(base).r.pow(e // 2)
    # extract even monomial content and rational square content
    c, cm, q = P.content_split(num)
    c = Fraction(c)
    # keep sign in q
    if c < 0:
        c = -c
        q = P.pneg(q)
    keep = []
    for i, e in cm:
        h, odd = divmod(e, 2)
        if T.atoms[i].square is not None:
            h, odd = 0, e
        if h:
            base = Sym(R.atom(i))
            out = out * sabs(base).r.pow(h)
        if odd:
            keep.append((i, odd))
    a, b = _isq(c.numerator), _isq(c.denominator)
    if a is not None and b is not None:
        out = out * R.const(P._fr(Fraction(a, b)))
        c = 1
    else:
        # make it integer under the root: sqrt(p/q) = sqrt(p*q)/q
        n = c.numerator * c.denominator
        out = out * R.const(Fraction(1, c.denominator))
        k = 2
        s = 1
        m = n
        while k * k <= m and k < 2000:
            while m % (k * k) == 0:
                m //= k * k
                s *= k
            k += 1
        out = out * R.const(s)
        c = m
    q = P.pscale(q, c)
    if keep:
        q = {P.mono_mul(m, tuple(keep)): v for m, v in q.items()}
    if q == P.ONE:
        return Sym(out)
    # perfect square of a polynomial?
    sq = poly_sqrt(q)
    if sq is not None:
        return Sym(out * sabs(Sym(R(sq))).r)
    arg = R(q)
    if any(e < 0 for m in q for _, e in m):
        # leave as opaque with laurent argument
        pass
    at, new = new_atom(('sqrt', pkey_sorted(q)), 'sqrt%d' % len(T.atoms),
                       'sqrt', (arg,), nonneg=True)
    if new:
        if syn_sign(q) == 1:
            at.pos = at.nonzero = True
        at.square = q
        P.T_has_alg[0] = True
        if any(e < 0 for m in q for _, e in m):
            at.axioms = [at.z >= 0, at.z * at.z == r_z3(arg)]
        else:
            at.axioms = [at.z >= 0, at.z * at.z == poly_z3(q)]
        at.ev = lambda env, a=arg: math.sqrt(max(ev(a, env), 0.0))
    return Sym(out * R.atom(at.idx))


def pkey_sorted(p):
    return frozenset(p.items())


def poly_sqrt(q):
    """exact square root of polynomial q or None (few terms only)"""
    if len(q) == 1:
        (m, c), = q.items()
        if c == 1 and not m:
            return P.ONE
        if all(e % 2 == 0 and T.atoms[i].square is None for i, e in m):
            c = Fraction(c)
            if c > 0:
                a, b = _isq(c.numerator), _isq(c.denominator)
                if a is not None and b is not None:
                    return {tuple((i, e // 2) for i, e in m):
                            P._fr(Fraction(a, b))}
        return None
    n = len(q)
    if n > 60 or n < 3:
        return None
    # leading-term recursion in lex order of dense vectors
    idx = sorted(P.patoms(q))
    if any(T.atoms[i].square is not None for i in idx):
        return None

    def vec(m):
        d = dict(m)
        return tuple(d.get(i, 0) for i in idx)
    rem = {vec(m): Fraction(c) for m, c in q.items()}
    lead = max(rem)
    c = rem[lead]
    if c <= 0 or any(e % 2 for e in lead):
        return None
    a, b = _isq(c.numerator), _isq(c.denominator)
    if a is None or b is None:
        return None
    root = {}
    t = tuple(e // 2 for e in lead)
    tc = Fraction(a, b)

    def sub(terms):
        for v, d in terms:
            x = rem.get(v, 0) - d
            if x:
                rem[v] = x
            else:
                rem.pop(v, None)
    root[t] = tc
    sub([(lead, c)])
    steps = 0
    while rem:
        steps += 1
        if steps > 12:
            return None
        v = max(rem)
        qv = tuple(x - y for x, y in zip(v, t))
        qc = rem[v] / (2 * tc)
        if qv >= t:
            return None
        terms = [(tuple(x + y for x, y in zip(qv, w)), 2 * qc * d)
                 for w, d in root.items()]
        terms.append((tuple(2 * x for x in qv), qc * qc))
        root[qv] = qc
        sub(terms)
    return {tuple((idx[k], e) for k, e in enumerate(v) if e): P._fr(c)
            for v, c in root.items()}


def _absatom(num):
    """|num| as an atom"""
    r = R(num)
    q = r.num if not lead_negative(r) else P.pneg(r.num)
    at, new = new_atom(('abs', pkey_sorted(q)), 'abs%d' % len(T.atoms),
                       'abs', (R(q),), nonneg=True)
    if new:
        z = poly_z3(q)
        at.square = (R(q) * R(q)).num
        P.T_has_alg[0] = True
        at.axioms = [at.z >= 0, z3.Or(at.z == z, at.z == -z)]
        at.ev = lambda env: abs(ev(R(q), env))
    return R.atom(at.idx)


def sabs(x):
    if not isinstance(x, Sym):
        return abs(x)
    if isinstance(x, SymC):
        return abs(x)
    r = x.r
    if r.is_const():
        return lift(abs(r.const_value()))
    ge = (x >= 0)
    if ge is True:
        return x
    le = (x <= 0)
    if le is True:
        return -x
    if _lazy() and not r.den:
        c, cm, q = P.content_split(r.num)
        if not any(e < 0 for m in q for _, e in m):
            out = R.const(P._fr(abs(Fraction(c))))
            for i, e in cm:
                out = out * (R.atom(i) if T.atoms[i].nonneg or e % 2 == 0
                             else _absatom({((i, 1),): 1})).pow(e)
            if q != P.ONE:
                out = out * _absatom(q)
            return Sym(out)
    if _lazy() and r.den:
        out = sabs(Sym(R(r.num)))
        for f, e in r.den:
            a = sabs(Sym(R(T.factors[f])))
            out = Sym(out.r / a.r.pow(e))
        return out
    # decide or fork
    if isinstance(ge, SBool):
        return x if CTX.branch(ge.z) else -x
    return x if ge else -x


def smax(a, b):
    if is_special(a) or is_special(b):
        if is_special(a) and is_special(b):
            return max(a, b)
        s, o = (a, b) if is_special(a) else (b, a)
        return s if s > 0 or s != s else o
    if _lazy():
        return _lazymax(lift(a), lift(b))
    return a if lift(a) >= lift(b) else b


def _lazy():
    return CTX is not None and CTX.lazy and not CTX.pinned


def _lazymax(a, b):
    """max(a, b) without a fork"""
    ge, le = (a >= b), (a <= b)
    if ge is True:
        return a
    if le is True:
        return b
    for c, v in ((ge, a), (le, b)):
        if isinstance(c, SBool) and CTX.query(
                [z3.Not(c.z)], 400, all_pc=True)[0] == 'unsat':
            return v
    at, new = new_atom(('max', frozenset((_rkey(a.r), _rkey(b.r)))),
                       'max%d' % len(T.atoms), 'max', (a.r, b.r),
                       pos=syn_sign(a.r.num) == 1 and not a.r.den or
                       syn_sign(b.r.num) == 1 and not b.r.den)
    if new:
        x, y = r_z3(a.r), r_z3(b.r)
        at.axioms = [at.z >= x, at.z >= y, z3.Or(at.z == x, at.z == y)]
        at.ev = lambda env: max(ev(a.r, env), ev(b.r, env))
    return Sym(R.atom(at.idx))


def smin(a, b):
    if is_special(a) or is_special(b):
        if is_special(a) and is_special(b):
            return min(a, b)
        s, o = (a, b) if is_special(a) else (b, a)
        return o if s > 0 else s
    if _lazy():
        return -_lazymax(-lift(a), -lift(b))
    return a if lift(a) <= lift(b) else b


def ssign(x):
    x = lift(x)
    if _lazy() and not x.r.is_const():
        r = x.r
        if lead_negative(r):
            return -ssign(-x)
        at, new = new_atom(('sign', _rkey(r)), 'sign%d' % len(T.atoms),
                           'sign', (r,))
        if new:
            a = r_z3(r)
            at.axioms = [z3.Implies(a > 0, at.z == 1),
                         z3.Implies(a < 0, at.z == -1),
                         z3.Implies(a == 0, at.z == 0)]
            at.ev = lambda env: float(np.sign(ev(r, env)))
        return Sym(R.atom(at.idx))
    if x > 0:
        return lift(1)
    if x < 0:
        return lift(-1)
    return lift(0)


def sfloor(x):
    r = x.r
    if r.is_const():
        return lift(math.floor(r.const_value()))
    at, new = new_atom(('floor', _rkey(r)), 'floor%d' % len(T.atoms),
                       'floor', (r,), is_int=True)
    if new:
        t = r_z3(r)
        at.axioms = [at.z <= t, t < at.z + 1]
        at.ev = lambda env: float(math.floor(ev(r, env) + 1e-12))
    return Sym(R.atom(at.idx))


def _terms(r):
    """Split rational function into (coef, unit R) terms with the same den."""
    for m, c in r.num.items():
        yield c, m


def sexp(x):
    if not isinstance(x, Sym):
        if is_special(x):
            return lift(0) if x < 0 else x
        x = lift(x)
    r = x.r
    if r.is_zero():
        return lift(1)
    if r.is_const():
        c = r.const_value()
        if const_mode_float():
            return lift(math.exp(c))
    out = R(P.ONE)
    for c, m in _terms(r):
        out = out * _expterm(c, m, r.den)
    return Sym(out)


def _expterm(c, m, den):
    c = Fraction(c)
    key0 = ('expbase', m, den)
    base = T.bykey.get(key0)
    if base is None:
        unit = abs(c)
        T.bykey[key0] = unit          # granularity, not an atom index
        base = unit
    k = c / base
    if k.denominator != 1:
        # finer granularity needed
        if k.denominator > 1000:
            # unrelated coefficient: independent opaque exponent
            return _expatom(m, den, abs(c)) .pow(1 if c > 0 else -1)
        nb = base / k.denominator
        old = _expatom(m, den, base)
        T.bykey[key0] = nb
        (mm, _), = old.num.items()
        oldatom = T.atoms[mm[0][0]]
        new = _expatom(m, den, nb)
        ALIASES[oldatom.idx] = (new, int(base / nb))
        k = c / nb
        base = nb
    return _expatom(m, den, base).pow(int(k))


ALIASES = {}


def _expatom(m, den, unit):
    arg = R({m: P._fr(unit)}, den)
    at, new = new_atom(('exp', m, den, unit), 'exp%d' % len(T.atoms), 'exp',
                       (arg,), pos=True)
    if new:
        at.axioms = [at.z > 0]
        s = syn_sign(arg.num)
        if s is not None and all(syn_sign(T.factors[f]) == 1
                                 for f, _ in den):
            if s > 0:
                at.axioms.append(at.z > 1)
            elif s < 0:
                at.axioms.append(at.z < 1)
        if arg.is_const():
            v = math.exp(float(arg.const_value()))
            at.axioms += [at.z > _zc(Fraction(v * (1 - 1e-12))),
                          at.z < _zc(Fraction(v * (1 + 1e-12)))]
        at.ev = lambda env: math.exp(max(min(ev(arg, env), 700), -700))
    return R.atom(at.idx)


def resolve_aliases(r):
    """rewrite exp atoms registered at a coarser granularity"""
    if not ALIASES:
        return r
    for _ in range(10):
        sub = {i: ALIASES[i][0].pow(ALIASES[i][1]) for i in r.atoms()
               if i in ALIASES}
        for i in r.atoms():
            at = T.atoms[i]
            if at.kind == 'int' and any(j in ALIASES
                                        for j in at.args[0].atoms()):
                from .shim import _tail_integral
                sub[i] = _tail_integral(resolve_aliases(at.args[0]),
                                        Sym(at.args[1]), T.bykey[('intvar',)])
        if not sub:
            return r
        r = substitute(r, sub)
    return r


def subst_poly(p, sub):
    out = R({})
    for m, c in p.items():
        keep = []
        t = R.const(c)
        for i, e in m:
            if i in sub:
                t = t * sub[i].pow(e)
            else:
                keep.append((i, e))
        if keep:
            t = t * R({tuple(keep): 1})
        out = out + t
    return out


def substitute(r, sub):
    n = subst_poly(r.num, sub)
    for f, e in r.den:
        q = T.factors[f]
        if P.patoms(q) & set(sub):
            n = n / subst_poly(q, sub).pow(e)
        else:
            n = n * R(P.ONE, ((f, e),))
    return n


def slog(x):
    if not isinstance(x, Sym):
        x = lift(x)
    if isinstance(x, SymC):
        return x.log()
    r = x.r
    if r.is_const() and const_mode_float():
        return lift(math.log(r.const_value()))
    if r.is_zero():
        return -math.inf
    out = R({})
    c, cm, q = P.content_split(r.num)
    c = Fraction(c)
    if c < 0:
        c, q = -c, P.pneg(q)
    out = out + _logint(c.numerator) - _logint(c.denominator)
    for i, e in cm:
        at = T.atoms[i]
        if at.kind == 'exp':
            out = out + at.args[0] * R.const(e)
        elif at.kind == 'sqrt':
            out = out + slog(Sym(at.args[0])).r * R.const(Fraction(e, 2))
        elif at.nonneg:
            out = out + _logatom(R.atom(i)) * R.const(e)
        else:
            q = {P.mono_mul(m, ((i, e),)): v for m, v in q.items()}
    if q == {(): -1}:
        q = P.ONE        # the argument is positive
    if q != P.ONE:
        if r.den and lead_negative(R(q)):
            q = P.pneg(q)
        out = out + _logconj(q)
    for f, e in r.den:
        out = out - _logatom(R(T.factors[f])) * R.const(e)
    return Sym(out)


def _logconj(q):
    """log(A + k r) with r a square root: of the two conjugates A + k r and
    -A + k r, one is expressed by the other, log((k r)^2 - A^2) apart"""
    for i in sorted(P.patoms(q), reverse=True):
        at = T.atoms[i]
        if at.kind != 'sqrt' or len(q) > 60:
            continue
        k = q.get(((i, 1),))
        A = {m: c for m, c in q.items() if m != ((i, 1),)}
        if k is None or k <= 0 or i in P.patoms(A) or any(
                e < 0 for m in A for _, e in m):
            continue
        if not lead_negative(R(A)):
            return _logatom(R(q))
        b = (R.atom(i) * R.atom(i)) * R.const(k * k) - R(A) * R(A)
        if b.den or not b.num:
            break
        if syn_sign(b.num) != 1:
            z = poly_z3(b.num)
            if CTX is None or CTX.query(
                    [z <= 0], 1000, all_pc=True)[0] != 'unsat':
                break
        conj = R.atom(i) * R.const(k) - R(A)
        return slog(Sym(b)).r - _logatom(conj)
    return _logatom(R(q))


def _logint(n):
    if n == 1:
        return R({})
    out = R({})
    m = n
    k = 2
    while k * k <= m and k < 300:
        e = 0
        while m % k == 0:
            m //= k
            e += 1
        if e:
            out = out + _logatom(R.const(k)) * R.const(e)
        k += 1
    if m > 1:
        out = out + _logatom(R.const(m))
    return out


def _logatom(arg):
    """log|arg|: only quotients as a whole are known to be positive"""
    if not arg.den and lead_negative(arg):
        arg = -arg
    if not arg.den and len(arg.num) == 1:
        (m, c), = arg.num.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and \
                T.atoms[m[0][0]].kind == 'sqrt':
            return slog(Sym(T.atoms[m[0][0]].args[0])).r * R.const(
                Fraction(1, 2))
    at, new = new_atom(('log', _rkey(arg)), 'log%d' % len(T.atoms), 'log',
                       (arg,))
    if new:
        if arg.is_const():
            v = math.log(arg.const_value())
            at.axioms = [at.z > _zc(Fraction(v - 1e-12)),
                         at.z < _zc(Fraction(v + 1e-12))]
            at.pos = at.nonneg = at.nonzero = v > 0
        else:
            a = r_z3(arg)
            at.axioms = [z3.Implies(z3.Or(a > 1, a < -1), at.z > 0),
                         z3.Implies(z3.And(a > -1, a < 1, a != 0), at.z < 0),
                         z3.Implies(z3.Or(a == 1, a == -1), at.z == 0)]
        at.ev = lambda env: math.log(max(abs(ev(arg, env)), 1e-300))
    return R.atom(at.idx)


def lead_negative(r):
    if not r.num:
        return False
    return r.num[max(r.num)] < 0


def _uf(kind, r, evf, axioms=None, **kw):
    at, new = new_atom((kind, _rkey(r)), '%s%d' % (kind, len(T.atoms)), kind,
                       (r,), **kw)
    if new:
        if axioms:
            at.axioms = axioms(at.z, r_z3(r))
        at.ev = lambda env: evf(ev(r, env))
    return Sym(R.atom(at.idx))


def serf(x):
    if is_special(x):
        return lift(1 if x > 0 else -1)
    x = lift(x)
    if x.r.is_zero():
        return lift(0)
    if x.r.is_const() and const_mode_float():
        return lift(math.erf(x.r.const_value()))
    if lead_negative(x.r):
        return -serf(-x)
    return _uf('erf', x.r, math.erf, lambda z, a: [
        z > -1, z < 1, z3.Implies(a > 0, z > 0), z3.Implies(a < 0, z < 0)])


def serfc(x):
    return lift(1) - serf(x)


POW_HOOK = [None]


def spow(x, y):
    if isinstance(y, SBool):
        y = int(bool(y))
    if isinstance(y, NUM):
        if is_special(y):
            raise Unsupported('power inf')
        y = lift(y)
    if not isinstance(y, Sym):
        return NotImplemented
    if isinstance(x, SymC):
        return x ** y
    if POW_HOOK[0] is not None and isinstance(x, Sym):
        v = POW_HOOK[0](x.r, y.r)
        if v is not None:
            return v
    if y.r.is_const():
        c = Fraction(y.r.const_value())
        if c.denominator == 1:
            n = int(c)
            if n < 0:
                if x.r.is_zero():
                    return math.inf
                CTX.note_div(x.r)
            return Sym(x.r.pow(n))
        if c.denominator == 2:
            s = ssqrt(x)
            if not isinstance(s, Sym):
                return s
            n = c.numerator
            if n < 0:
                CTX.note_div(s.r)
            return Sym(s.r.pow(n))
        if x.r.is_const():
            v = x.r.const_value()
            if v == 1 or v == 0:
                return x
            return uconst('pow(%s,%s)' % (v, c), float(v) ** float(c))
        v = _powsplit(x.r, c)
        if v is not None:
            return v
        at, new = new_atom(('pow', _rkey(x.r), c), 'pow%d' % len(T.atoms),
                           'pow', (x.r,), nonneg=True)
        if new:
            b = r_z3(x.r)
            at.axioms = [at.z >= 0, z3.Implies(b > 0, at.z > 0)]
            if c > 0:
                at.axioms += [z3.Implies(b > 1, at.z > 1),
                              z3.Implies(b == 1, at.z == 1),
                              z3.Implies(z3.And(b > 0, b < 1), at.z < 1)]
            if syn_sign(x.r.num) == 1 and all(
                    syn_sign(T.factors[f]) == 1 for f, _ in x.r.den):
                at.pos = at.nonzero = True
            at.ev = lambda env: abs(ev(x.r, env)) ** float(c)
        return Sym(R.atom(at.idx))
    if x.r.is_const() and x.r.const_value() == 1:
        return x
    at, new = new_atom(('upow', _rkey(x.r), _rkey(y.r)),
                       'upow%d' % len(T.atoms), 'upow', (x.r, y.r),
                       nonneg=True)
    if new:
        at.axioms = [at.z >= 0]
        at.ev = lambda env: abs(ev(x.r, env)) ** ev(y.r, env)
    return Sym(R.atom(at.idx))


def _powsplit(r, c):
    """(a^i b^j ...)^c of positive factors as a product of powers of each, with
    exponents in ]0, 1[ apart from integer exponents"""
    n, cm, q = P.content_split(r.num)
    one = [(R.atom(i), e) for i, e in cm]
    if q != P.ONE:
        one.append((R(q), 1))
    one += [(R(T.factors[f]), -e) for f, e in r.den]
    if n <= 0 or len(one) == 1 and one[0][1] == 1 and n == 1 and 0 < c < 1:
        return None
    if any(syn_sign(f.num) != 1 for f, _ in one):
        return None
    out = Sym(R.const(1))
    if n != 1:
        out = spow(Sym(R.const(n)), Sym(R.const(c)))
    for f, e in one:
        k = (c * e).numerator // (c * e).denominator
        out = out * Sym(f.pow(k))
        if c * e != k:
            out = out * spow(Sym(f), Sym(R.const(c * e - k)))
    return out


# trigonometry --------------------------------------------------------------
def _angle_split(r):
    """r = q*pi + sum c_i t_i ; returns (q, [(c, m)])"""
    q = Fraction(0)
    rest = []
    pi = T.bykey.get(('pi',))
    for m, c in r.num.items():
        if not r.den and pi is not None and m == ((pi, 1),):
            q = Fraction(c)
        else:
            rest.append((Fraction(c), m))
    return q, rest


def ssincos(x):
    x = lift(x)
    r = x.r
    if r.is_const() and const_mode_float():
        c = float(r.const_value())
        return lift(math.sin(c)), lift(math.cos(c))
    q, rest = _angle_split(r)
    s, c = _trig_pi(q)
    for k, m in sorted(rest, key=lambda t: t[1]):
        s2, c2 = _trig_term(k, m, r.den)
        s, c = s * c2 + c * s2, c * c2 - s * s2
    return Sym(s), Sym(c)


def _trig_pi(q):
    q = q % 2
    one, zero = R(P.ONE), R({})
    table = {Fraction(0): (zero, one), Fraction(1, 2): (one, zero),
             Fraction(1): (zero, -one), Fraction(3, 2): (-one, zero)}
    if q in table:
        return table[q]
    quad, f = divmod(q, Fraction(1, 2))
    # angle f*pi in (0, pi/2)
    if f == Fraction(1, 4):
        h = (ssqrt(lift(2)) / 2).r
        s, c = h, h
    elif f == Fraction(1, 6):
        s, c = R.const(Fraction(1, 2)), (ssqrt(lift(3)) / 2).r
    elif f == Fraction(1, 3):
        c, s = R.const(Fraction(1, 2)), (ssqrt(lift(3)) / 2).r
    else:
        swap = f > Fraction(1, 4)
        g = Fraction(1, 2) - f if swap else f
        s, c = _trig_atoms(('pifrac', g), None, math.pi * float(g))
        if swap:
            s, c = c, s
    for _ in range(int(quad)):
        s, c = c, -s
    return s, c


def _trig_atoms(key, arg, const=None):
    ca, new = new_atom(('cos', key), 'cos%d' % len(T.atoms), 'cos',
                       (arg,) if arg is not None else ())
    sa, _ = new_atom(('sin', key), 'sin%d' % (len(T.atoms) - (1 if new else 0)
                                              if new else ca.idx), 'sin',
                     (arg,) if arg is not None else ())
    if new:
        c2 = {((ca.idx, 2),): 1}
        sa.square = P.psub(P.ONE, c2)
        P.T_has_alg[0] = True
        ax = sa.z * sa.z + ca.z * ca.z == 1
        ca.axioms = [ax, ca.z >= -1, ca.z <= 1]
        sa.axioms = [ax, sa.z >= -1, sa.z <= 1]
        ca.deps = ca.deps | {sa.idx}
        sa.deps = sa.deps | {ca.idx}
        if const is not None:
            v, w = math.cos(const), math.sin(const)
            for at, t in ((ca, v), (sa, w)):
                at.axioms += [at.z > _zc(Fraction(t - 1e-12)),
                              at.z < _zc(Fraction(t + 1e-12))]
                at.pos = at.nonneg = at.nonzero = t > 0
            ca.ev = lambda env: math.cos(const)
            sa.ev = lambda env: math.sin(const)
        else:
            # range facts for small-angle domains
            z = r_z3(arg)
            pz = PI().r
            h = r_z3(pz) / 2
            ca.axioms += [z3.Implies(z3.And(z > -h, z < h), ca.z > 0),
                          z3.Implies(z == 0, ca.z == 1)]
            sa.axioms += [z3.Implies(z3.And(z > 0, z < 2 * h), sa.z > 0),
                          z3.Implies(z3.And(z < 0, z > -2 * h), sa.z < 0),
                          z3.Implies(z == 0, sa.z == 0)]
            pi_idx = T.bykey.get(('pi',))
            if pi_idx is not None:
                ca.deps = ca.deps | {pi_idx}
                sa.deps = sa.deps | {pi_idx}
            ca.ev = lambda env: math.cos(ev(arg, env))
            sa.ev = lambda env: math.sin(ev(arg, env))
    return R.atom(sa.idx), R.atom(ca.idx)


def _trig_term(k, m, den):
    neg = k < 0
    k = abs(k)
    # atan2 atoms
    if not den and len(m) == 1 and m[0][1] == 1 and k.denominator == 1 and \
            T.atoms[m[0][0]].kind == 'atan2':
        y, x = T.atoms[m[0][0]].args
        h = ssqrt(Sym(y) * Sym(y) + Sym(x) * Sym(x)).r
        s1, c1 = y / h, x / h
    else:
        key0 = ('trigbase', m, den)
        base = T.bykey.get(key0)
        if base is None:
            T.bykey[key0] = base = k
        n = k / base
        if n.denominator != 1 or n > 8:
            s1, c1 = _trig_atoms((m, den, k), R({m: P._fr(k)}, den))
            n = Fraction(1)
        else:
            s1, c1 = _trig_atoms((m, den, base), R({m: P._fr(base)}, den))
        k = n
    s, c = s1, c1
    for _ in range(int(k) - 1):
        s, c = s * c1 + c * s1, c * c1 - s * s1
    return (-s if neg else s), c


def satan2(y, x):
    y, x = lift(y), lift(x)
    if y.r.is_const() and x.r.is_const():
        v = math.atan2(float(y.r.const_value()), float(x.r.const_value()))
        f = Fraction(round(v / math.pi * 4), 4)
        if abs(float(f) * math.pi - v) < 1e-12:
            return PI() * f
        if const_mode_float():
            return lift(v)
    at, new = new_atom(('atan2', _rkey(y.r), _rkey(x.r)),
                       'atan2_%d' % len(T.atoms), 'atan2', (y.r, x.r))
    if new:
        at.axioms = [at.z <= z3.RealVal('3.1415926536'),
                     at.z >= z3.RealVal('-3.1415926536')]
        at.ev = lambda env: math.atan2(ev(y.r, env), ev(x.r, env))
    return Sym(R.atom(at.idx))


def generic_uf(kind, xs, evf, **kw):
    xs = [lift(x) for x in xs]
    if all(x.r.is_const() for x in xs):
        v = evf(*[float(x.r.const_value()) for x in xs])
        return uconst('%s(%s)' % (kind, ','.join(str(x.r.const_value())
                                                 for x in xs)), v)
    at, new = new_atom((kind,) + tuple(_rkey(x.r) for x in xs),
                       '%s_%d' % (kind, len(T.atoms)), kind,
                       tuple(x.r for x in xs), **kw)
    if new:
        at.ev = lambda env: evf(*[ev(x.r, env) for x in xs])
        if at.pos:
            at.axioms = [at.z > 0]
    return Sym(R.atom(at.idx))


# numeric evaluation ---------------------------------------------------------
def ev_poly(p, env):
    s = 0.0
    for m, c in p.items():
        v = float(c)
        for i, e in m:
            v *= ev_atom(i, env) ** e
        s += v
    return s


def ev_atom(i, env):
    v = env.get(i)
    if v is None:
        a = T.atoms[i]
        if a.ev is None:
            raise KeyError(a.name)
        v = a.ev(env)
        env[i] = v
    return v


def ev(r, env):
    v = ev_poly(r.num, env)
    for f, e in r.den:
        v /= ev_poly(T.factors[f], env) ** e
    return v


# differentiation -------------------------------------------------------------
def diff(r, i):
    """d r / d atom_i"""
    dn = diff_poly(r.num, i)
    out = dn * R(P.ONE, r.den)
    for k, (f, e) in enumerate(r.den):
        df = diff_poly(T.factors[f], i)
        if df.num:
            out = out - R(r.num, r.den) * df * R.const(e) / R(T.factors[f])
    return out


def diff_poly(p, i):
    out = R({})
    cache = {}
    for m, c in p.items():
        for k, (j, e) in enumerate(m):
            if j == i or i in T.atoms[j].deps:
                if j not in cache:
                    cache[j] = R(P.ONE) if j == i else diff_atom(j, i)
                rest = m[:k] + (((j, e - 1),) if e != 1 else ()) + m[k + 1:]
                out = out + R({rest: c * e}) * cache[j]
    return out


def diff_atom(j, i):
    a = T.atoms[j]
    if a.kind == 'exp':
        return R.atom(j) * diff(a.args[0], i)
    if a.kind == 'sqrt':
        return diff(a.args[0], i) / (R.atom(j) * R.const(2))
    if a.kind == 'log':
        return diff(a.args[0], i) / a.args[0]
    if a.kind == 'erf':
        x = Sym(a.args[0])
        return (sexp(-x * x) * 2 / ssqrt(PI())).r * diff(a.args[0], i)
    if a.kind in ('floor', 'const'):
        return R({})
    raise Unsupported('derivative of %s' % a.kind)


# --------------------------------------------------------------------------
# Arrays
# --------------------------------------------------------------------------
numbers.Real.register(Sym)
CNUM = (complex, np.complexfloating)


def mkc(re, im):
    """re + i im; real numbers stay real"""
    re, im = lift(re), lift(im)
    if im.r.is_zero():
        return re
    return SymC(re.r, im.r)


class SymC(Sym):
    """complex number; a subclass so that its reflected operators are tried
    first"""
    __slots__ = ('im',)

    def __init__(self, r, im):
        self.r, self.im = r, im

    @property
    def real(self):
        return Sym(self.r)

    @property
    def imag(self):
        return Sym(self.im)

    def conjugate(self):
        return SymC(self.r, -self.im)
    conj = conjugate

    def _bin(self, o, op, rev=False):
        if isinstance(o, Sym):
            o = o
        elif isinstance(o, NUM + CNUM):
            o = lift(o)
        else:
            return NotImplemented
        a, b = Sym(self.r), Sym(self.im)
        c, d = o.real, o.imag
        if op == '*':
            return mkc(a * c - b * d, a * d + b * c)
        if op == '+':
            return mkc(a + c, b + d)
        if rev:
            a, b, c, d = c, d, a, b
        if op == '-':
            return mkc(a - c, b - d)
        n = c * c + d * d
        return mkc((a * c + b * d) / n, (b * c - a * d) / n)

    def __add__(self, o):
        return self._bin(o, '+')

    def __radd__(self, o):
        return self._bin(o, '+', True)

    def __sub__(self, o):
        return self._bin(o, '-')

    def __rsub__(self, o):
        return self._bin(o, '-', True)

    def __mul__(self, o):
        return self._bin(o, '*')

    def __rmul__(self, o):
        return self._bin(o, '*', True)

    def __truediv__(self, o):
        return self._bin(o, '/')

    def __rtruediv__(self, o):
        return self._bin(o, '/', True)

    def __neg__(self):
        return SymC(-self.r, -self.im)

    def __abs__(self):
        a, b = self.real, self.imag
        return ssqrt(a * a + b * b)

    def __pow__(self, o):
        n = int(o)
        if n != o:
            raise Unsupported('power of a complex number')
        out, x = lift(1), self if n >= 0 else 1 / self
        for i in range(abs(n)):
            out = out * x
        return out

    def __rpow__(self, o):
        raise Unsupported('complex exponent')

    def log(self):
        a, b = self.real, self.imag
        return SymC((slog(a * a + b * b) / 2).r,
                    generic_uf('arg', [a, b], lambda x, y: math.atan2(
                        y, x)).r)

    def _cmp(self, o, op):
        if op in ('==', '!='):
            o = lift(o)
            e = sand([self.real == o.real, self.imag == o.imag])
            return e if op == '==' else (~e if isinstance(e, SBool) else
                                         not e)
        raise TypeError('complex numbers are not ordered')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __lt__(self, o):
        return self._cmp(o, '<')
    __le__ = __gt__ = __ge__ = __lt__

    def __hash__(self):
        return hash((self.r.key(), self.im.key()))

    def __float__(self):
        raise TypeError('float() argument is complex')


class SArr(np.ndarray):
    """object array of Sym (or SBool)"""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .shim import array_function
        return array_function(func, args, kwargs)

    def astype(self, t, *a, **k):
        from .shim import cast_array
        return cast_array(self, t)

    def sum(self, axis=None, **k):
        k.pop('dtype', None)
        return wrap(np.add.reduce(plain(self), axis=axis, **k)) \
            if self.size else lift(0)

    def mean(self, axis=None, dtype=None, keepdims=False, **k):
        if axis is None:
            n = self.size
        elif isinstance(axis, tuple):
            n = 1
            for x in axis:
                n *= self.shape[x]
        else:
            n = self.shape[axis]
        s = np.add.reduce(plain(self), axis=axis, keepdims=keepdims)
        return wrap(s) / lift(n) if n else math.nan

    def clip(self, min=None, max=None, **k):
        from .shim import clip
        return clip(self, min, max)

    def round(self, decimals=0, **k):
        from .shim import round_
        return round_(self, decimals)

    def var(self, axis=None, **k):
        from .shim import var
        return var(self, axis, **k)

    def std(self, axis=None, **k):
        from .shim import std
        return std(self, axis, **k)

    def dot(self, o, out=None):
        return wrap(np.dot(plain(self), plain(o)))

    def max(self, axis=None, **k):
        return wrap(_pyufunc(np.maximum).reduce(
            plain(self).ravel() if axis is None else plain(self),
            axis=0 if axis is None else axis))

    def min(self, axis=None, **k):
        return wrap(_pyufunc(np.minimum).reduce(
            plain(self).ravel() if axis is None else plain(self),
            axis=0 if axis is None else axis))

    def all(self, axis=None, **k):
        from .shim import s_all
        return s_all(self, axis)

    def any(self, axis=None, **k):
        from .shim import s_any
        return s_any(self, axis)

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray):
            v = plain(lift_arr(v))
        elif isinstance(v, (list, tuple)):
            v = plain(lift_arr(objarray(v)))
        elif isinstance(v, Sym):
            a = np.empty((), object)
            a[()] = v
            v = a
        elif isinstance(v, NUM):
            a = np.empty((), object)
            a[()] = lift(v)
            v = a
        if isinstance(v, np.ndarray) and v.ndim == 0:
            kk = k if isinstance(k, tuple) else (k,)
            if len(kk) == self.ndim and all(
                    isinstance(i, (int, np.integer, Sym)) and
                    not isinstance(i, bool) for i in kk):
                v = v[()]       # full index: store the element itself
                k = tuple(i.__index__() for i in kk)
        np.ndarray.__setitem__(self.view(np.ndarray), k, v)

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, k)
        return r

    def tolist(self):
        return plain(self).tolist()

    def item(self, *a):
        return plain(self).item(*a)

    def __contains__(self, v):
        return bool(sor([x == v for x in plain(self).ravel()]))

    def __bool__(self):
        if self.size == 1:
            return bool(plain(self).ravel()[0])
        raise ValueError('The truth value of an array is ambiguous')

    def __float__(self):
        return float(self.item())

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return mkarr(np.zeros(self.shape))

    def conj(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling')

    def __deepcopy__(self, memo):
        return self.copy()


def plain(x):
    """SArr -> ndarray view; Sym -> 0-d object array."""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (Sym, SBool)):
        a = np.empty((), object)
        a[()] = x
        return a
    return x


def objarray(lst):
    """nested list possibly holding Sym/SArr -> ndarray"""
    if isinstance(lst, np.ndarray):
        return plain(lst)
    return np.array(_delist(lst), dtype=object) if _has_sym(lst) \
        else np.array(lst)


def _delist(x):
    if isinstance(x, (list, tuple)):
        return [_delist(v) for v in x]
    if isinstance(x, SArr):
        return plain(x).tolist()
    if isinstance(x, np.ndarray):
        return x.tolist()
    return x


def _has_sym(x):
    if isinstance(x, (Sym, SArr, SBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    return False


def lift_arr(a):
    """ndarray -> SArr for float/object arrays; ints, bools untouched."""
    if isinstance(a, SArr):
        return a
    if not isinstance(a, np.ndarray):
        return a
    if a.dtype == object:
        out = np.empty(a.shape, object)
        f = a.ravel()
        o = out.ravel() if out.ndim else out
        res = [x if isinstance(x, (Sym, SBool)) else
               (lift(x) if isinstance(x, NUM) and not isinstance(
                   x, (bool, np.bool_)) else x) for x in f]
        if any(not isinstance(x, (Sym, SBool, float, bool, np.bool_))
               for x in res):
            return a
        if a.ndim == 0:
            out[()] = res[0]
        else:
            out = np.empty(len(res), object)
            for i, v in enumerate(res):
                out[i] = v
            out = out.reshape(a.shape)
        return out.view(SArr)
    if a.dtype.kind == 'f':
        out = np.empty(a.size, object)
        for i, v in enumerate(a.ravel()):
            out[i] = lift(v)
        return out.reshape(a.shape).view(SArr)
    if a.dtype.kind == 'c':
        if np.all(a.imag == 0):
            return lift_arr(a.real)
        out = np.empty(a.size, object)
        for i, v in enumerate(a.ravel()):
            out[i] = lift(v)
        return out.reshape(a.shape).view(SArr)
    return a


def mkarr(x):
    """any nested data -> lifted array (ints become Sym too)"""
    a = objarray(x)
    if a.dtype.kind in 'iub':
        a = a.astype(float)
    return lift_arr(a)


def wrap(x):
    """result of a plain numpy op -> Sym / SArr / untouched"""
    if isinstance(x, np.ndarray):
        if x.dtype == object or x.dtype.kind in 'fc':
            if x.ndim == 0:
                v = x.item()
                return lift(v) if isinstance(v, NUM) and not isinstance(
                    v, (bool, np.bool_)) else v
            r = lift_arr(x)
            return norm_bool(r)
        return x
    if isinstance(x, (float, np.floating)) and not isinstance(x, Sym):
        return lift(x)
    return x


def norm_bool(a):
    """object array consisting only of concrete bools -> bool array"""
    if isinstance(a, SArr) and a.size:
        f = plain(a).ravel()
        if isinstance(f[0], (bool, np.bool_)) or isinstance(f[0], SBool):
            if all(isinstance(v, (bool, np.bool_)) for v in f):
                return plain(a).astype(bool)
    return a


def _div(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a / b
    if is_special(a) or is_special(b):
        if isinstance(b, float) and b == 0:
            return math.nan
        return a / b
    la, lb = lift(a), lift(b)
    return la / lb


def _pw(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a ** b
    if is_special(a) or is_special(b):
        return a ** b
    return spow(lift(a), b)


def _lnot(a):
    if isinstance(a, SBool):
        return ~a
    return not bool(a)


def _land(a, b):
    return sand([_b(a), _b(b)])


def _lor(a, b):
    return sor([_b(a), _b(b)])


def _b(x):
    if isinstance(x, (SBool, bool, np.bool_)):
        return x
    return x != 0


def _spec1(f):
    def g(x):
        if is_special(x):
            with np.errstate(all='ignore'):
                return float(getattr(np, f.__name__[1:])(x))
        return f(lift(x))
    return g


def _c(op):
    import operator as o
    fn = getattr(o, op)

    def g(a, b):
        r = fn(a, b)
        if isinstance(r, np.bool_):
            r = bool(r)
        return r
    return g


def _arctan(x):
    x = lift(x)
    return satan2(x, lift(1))


_TABLE = None


def sym_hyp(x, kind):
    e = sexp(x)
    if kind == 'cosh':
        return (e + 1 / e) / 2
    if kind == 'sinh':
        return (e - 1 / e) / 2
    return (e - 1 / e) / (e + 1 / e)


def _table():
    global _TABLE
    if _TABLE is None:
        f = np.frompyfunc

        def rem(a, b):
            return a - lift(_div(a, b)).floor() * b
        t = {
            np.divide: f(_div, 2, 1),
            np.power: f(_pw, 2, 1), np.float_power: f(_pw, 2, 1),
            np.sqrt: f(lambda x: ssqrt(x), 1, 1),
            np.exp: f(sexp, 1, 1),
            np.log: f(slog, 1, 1),
            np.log2: f(lambda x: slog(x) / slog(lift(2)), 1, 1),
            np.log10: f(slog10, 1, 1),
            np.sin: f(lambda x: ssincos(x)[0], 1, 1),
            np.cos: f(lambda x: ssincos(x)[1], 1, 1),
            np.tan: f(lambda x: ssincos(x)[0] / ssincos(x)[1], 1, 1),
            np.cosh: f(lambda x: sym_hyp(x, 'cosh'), 1, 1),
            np.sinh: f(lambda x: sym_hyp(x, 'sinh'), 1, 1),
            np.tanh: f(lambda x: sym_hyp(x, 'tanh'), 1, 1),
            np.expm1: f(lambda x: sexp(x) - 1, 1, 1),
            np.log1p: f(lambda x: slog(x + 1), 1, 1),
            np.arctan2: f(satan2, 2, 1),
            np.arctan: f(_arctan, 1, 1),
            np.arccos: f(lambda x: generic_uf('acos', [x], math.acos), 1, 1),
            np.arcsin: f(lambda x: generic_uf('asin', [x], math.asin), 1, 1),
            np.absolute: f(sabs, 1, 1), np.fabs: f(sabs, 1, 1),
            np.sign: f(ssign, 1, 1),
            np.floor: f(lambda x: lift(x).floor(), 1, 1),
            np.ceil: f(lambda x: lift(x).ceil(), 1, 1),
            np.trunc: f(lambda x: lift(x).trunc(), 1, 1),
            np.maximum: f(smax, 2, 1), np.minimum: f(smin, 2, 1),
            np.fmax: f(smax, 2, 1), np.fmin: f(smin, 2, 1),
            np.less: f(_c('lt'), 2, 1), np.less_equal: f(_c('le'), 2, 1),
            np.greater: f(_c('gt'), 2, 1),
            np.greater_equal: f(_c('ge'), 2, 1),
            np.equal: f(_c('eq'), 2, 1), np.not_equal: f(_c('ne'), 2, 1),
            np.logical_not: f(_lnot, 1, 1), np.invert: f(_lnot, 1, 1),
            np.logical_and: f(_land, 2, 1), np.bitwise_and: f(_land, 2, 1),
            np.logical_or: f(_lor, 2, 1), np.bitwise_or: f(_lor, 2, 1),
            np.isnan: f(lambda x: isinstance(x, float) and x != x, 1, 1),
            np.isinf: f(lambda x: is_special(x) and x == x, 1, 1),
            np.isfinite: f(lambda x: not is_special(x), 1, 1),
            np.square: f(lambda x: x * x, 1, 1),
            np.reciprocal: f(lambda x: 1 / lift(x), 1, 1),
            np.deg2rad: f(lambda x: x * PI() / 180, 1, 1),
            np.radians: f(lambda x: x * PI() / 180, 1, 1),
            np.rad2deg: f(lambda x: x * 180 / PI(), 1, 1),
            np.degrees: f(lambda x: x * 180 / PI(), 1, 1),
            np.floor_divide: f(lambda a, b: lift(_div(a, b)).floor(), 2, 1),
            np.remainder: f(rem, 2, 1),
            np.hypot: f(lambda a, b: ssqrt(lift(a) * a + lift(b) * b), 2, 1),
            np.conjugate: f(lambda x: lift(x).conj(), 1, 1),
            np.positive: f(lambda x: x, 1, 1),
        }
        _TABLE = t
    return _TABLE


def _pyufunc(u):
    return _table()[u]


_NATIVE = {np.add, np.subtract, np.multiply, np.negative, np.matmul}


def ufunc_dispatch(ufunc, method, inputs, kw):
    out = kw.pop('out', None)
    kw.pop('casting', None)
    kw.pop('subok', None)
    kw.pop('dtype', None)
    ins = []
    for x in inputs:
        if isinstance(x, (list, tuple)):
            x = objarray(x)
        x = plain(x)
        if isinstance(x, np.ndarray) and x.dtype.kind in 'fc':
            x = plain(lift_arr(x))
        elif isinstance(x, CNUM):
            a = np.empty((), object)
            a[()] = lift(x)
            x = a
        elif isinstance(x, (float, np.floating)):
            x = plain(lift(x))
            if isinstance(x, float):
                a = np.empty((), object)
                a[()] = x
                x = a
        elif isinstance(x, (np.integer, int)) and ufunc is not np.power:
            x = int(x)
        ins.append(x)
    wh = kw.get('where')
    if wh is not None and isinstance(wh, SArr):
        kw['where'] = conc_mask(wh)
    t = _table()
    if ufunc in t:
        f = t[ufunc]
    elif ufunc in _NATIVE:
        f = ufunc
    else:
        nm = getattr(ufunc, '__name__', str(ufunc))
        if nm in ('erf', 'erfc'):
            f = np.frompyfunc(serf if nm == 'erf' else serfc, 1, 1)
        else:
            raise Unsupported('ufunc %s' % nm)
    if method == '__call__':
        if ufunc in t or ufunc not in _NATIVE:
            res = f(*ins, **kw)
        else:
            ins = [_force_obj(x) for x in ins]
            res = f(*ins, **kw)
    elif method == 'outer':
        ins = [_force_obj(x) if not isinstance(x, np.ndarray) else x
               for x in ins]
        res = f.outer(*[x if x.dtype == object else x.astype(object)
                        for x in ins], **kw)
    elif method in ('reduce', 'accumulate'):
        if ufunc in (np.logical_and, np.bitwise_and):
            from .shim import s_all
            return s_all(ins[0], kw.get('axis', 0))
        if ufunc in (np.logical_or, np.bitwise_or):
            from .shim import s_any
            return s_any(ins[0], kw.get('axis', 0))
        a = ins[0]
        ax = kw.get('axis', 0)
        if ax is None and method == 'reduce' and ufunc not in _NATIVE:
            a = a.ravel()
            kw['axis'] = 0
        if ufunc not in _NATIVE:
            kw.pop('keepdims', None) if not kw.get('keepdims') else None
            kw.pop('initial', None) if kw.get('initial', 0) is np._NoValue \
                else None
        res = getattr(f, method)(a, **kw)
    elif method == 'at':
        a, idx = inputs[0], inputs[1]
        f.at(plain(a), idx, *ins[2:])
        return None
    else:
        raise Unsupported('ufunc method %s' % method)
    res = wrap(res) if not isinstance(res, tuple) else tuple(map(wrap, res))
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SArr):
            o[...] = res
            return o
        if isinstance(o, np.ndarray) and o.dtype == object:
            o[...] = plain(res)
            return o
        if isinstance(o, np.ndarray) and o.dtype == bool:
            o[...] = conc_mask(res)
            return o
        if isinstance(o, np.ndarray) and o.dtype.kind in 'iu':
            raise Unsupported('symbolic value into an integer array')
        raise Unsupported('out= into %r' % type(o))
    return res


def _force_obj(x):
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    a = np.empty((), object)
    a[()] = lift(x)
    return a


def conc_mask(m):
    """symbolic boolean array -> concrete bool array (forks)"""
    if isinstance(m, (SBool, bool, np.bool_)):
        return bool(m)
    p = plain(m)
    if p.dtype != object:
        return p
    return np.array([bool(v) for v in p.ravel()], dtype=bool).reshape(p.shape)


# --------------------------------------------------------------------------
# Context / path explorer
# --------------------------------------------------------------------------
CTX = None


class Ctx:
    def __init__(self, seed=1, branch_ms=8000, goal_ms=60000, max_paths=4000,
                 pinned=False):
        self.seed = seed
        self.branch_ms = branch_ms
        self.goal_ms = goal_ms
        self.max_paths = max_paths
        self.pinned = pinned
        self.div0 = 'raise'
        self.lazy = False
        self.floats = False
        self.stats = dict(branch_queries=0, branch_time=0.0, goals=0,
                          goal_queries=0, goal_time=0.0, discharged=0,
                          ring_identities=0, unknown_branches=0, paths=0,
                          aborted=0, z3_proved_nontrivial=0)
        self.prefix = []
        self.reset_path()
        self.qcache = {}

    def reset_path(self):
        self.pc = []          # list of (z3 expr, atoms frozenset)
        self.pos = 0
        self.trace = []
        self.defined = {}
        self.lazy = False
        self.floats = False
        self.depth_limit = None

    def note_div(self, r):
        """record definedness assumption: divisor is non-zero"""
        if r.is_const():
            return
        if syn_sign(r.num) in (1, -1):
            return
        k = frozenset(r.num.items())
        if k not in self.defined:
            self.defined[k] = r.num

    # --- solver -------------------------------------------------------------
    def atoms_of(self, e):
        key = e.get_id()
        c = self.qcache.get(('at', key))
        if c is not None and c[0].eq(e):
            return c[1]
        names = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(x.decl().name())
            st.extend(x.children())
        out = frozenset(names)
        self.qcache[('at', key)] = (e, out)
        return out

    def axioms_for(self, names):
        """closure of axioms for atoms named"""
        byname = {a.name: a for a in T.atoms}
        todo = list(names)
        seen = set()
        ax = []
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            a = byname.get(n)
            if a is None:
                continue
            for e in a.axioms:
                ax.append(e)
                todo.extend(self.atoms_of(e))
            if a.lo is not None:
                ax.append(a.z >= a.lo)
            if a.hi is not None:
                ax.append(a.z <= a.hi)
        return ax, seen

    def relevant_pc(self, names):
        names = set(names)
        pcs = []
        rest = list(self.pc)
        changed = True
        while changed:
            changed = False
            nr = []
            for e, at in rest:
                if at & names:
                    pcs.append(e)
                    names |= at
                    changed = True
                else:
                    nr.append((e, at))
            rest = nr
        return pcs, names

    def query(self, exprs, ms, all_pc=False):
        """check sat of exprs with axioms and relevant path condition.
        returns ('sat', model) / ('unsat', None) / ('unknown', reason)"""
        names = set()
        for e in exprs:
            names |= self.atoms_of(e)
        # closure under axioms and pc
        while True:
            ax, nm = self.axioms_for(names)
            if all_pc:
                pcs = [e for e, _ in self.pc]
                nm2 = set(nm)
                for _, at in self.pc:
                    nm2 |= at
            else:
                pcs, nm2 = self.relevant_pc(nm)
            if nm2 == names:
                break
            names = nm2
        allx = list(exprs) + pcs + ax
        has_int = any(n.startswith('floor') or n.startswith('int_')
                      for n in names)
        key = frozenset(e.get_id() for e in allx)
        hit = self.qcache.get(('q', key))
        if hit is not None and hit[2] >= ms:
            return hit[0], hit[1]
        res = self._solve(allx, ms, has_int)
        self.qcache[('q', key)] = (res[0], res[1], ms, allx)
        return res

    def _solve(self, allx, ms, has_int):
        last = 'unknown'
        strategies = ['default'] if has_int else ['default', 'nra']
        budgets = [ms // 2, ms] if len(strategies) > 1 else [ms]
        for st, b in zip(strategies, budgets):
            s = z3.Solver() if st == 'default' else z3.SolverFor('QF_NRA')
            s.set('timeout', int(b))
            s.set('random_seed', self.seed)
            s.add(*allx)
            r = s.check()
            if r == z3.sat:
                return 'sat', s.model()
            if r == z3.unsat:
                return 'unsat', None
            last = s.reason_unknown()
        return 'unknown', last

    # --- branching ------------------------------------------------------------
    def add_pc(self, e):
        self.pc.append((e, self.atoms_of(e)))

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.depth_limit is not None and self.pos >= self.depth_limit:
            raise PathAbort()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][0]
        else:
            t0 = time.time()
            rt, _ = self.query([c], self.branch_ms)
            if rt == 'unsat':
                v, alt = False, False
            else:
                nc = z3.Not(c)
                rf, _ = self.query([nc], self.branch_ms)
                if rf == 'unsat':
                    v, alt = True, False
                else:
                    v, alt = True, True
                    if rt == 'unknown' or rf == 'unknown':
                        self.stats['unknown_branches'] += 1
            self.stats['branch_queries'] += 2
            self.stats['branch_time'] += time.time() - t0
            self.prefix.append([v, alt])
            if len(self.prefix) > 3000:
                raise PathLimit('too many decisions on one path')
        self.pos += 1
        self.trace.append(v)
        e = c if v else z3.Not(c)
        self.add_pc(e)
        return v

    def choose(self, n, label):
        """fork over range(n)"""
        z = z3.Int('choice_%s' % label)
        for k in range(n - 1):
            if self.branch(z == k):
                return k
        return n - 1

    def concretize_int(self, x):
        if not isinstance(x, Sym):
            return int(x)
        c = x._conc()
        if c is not None:
            return int(c)
        zx = r_z3(x.r)
        for _ in range(200):
            ent = self.prefix[self.pos] if self.pos < len(self.prefix) else None
            if ent is not None and len(ent) > 2:
                val = ent[2]
            else:
                s = z3.Solver()
                s.set('timeout', self.branch_ms)
                names = set(self.atoms_of(zx))
                while True:
                    ax, nm = self.axioms_for(names)
                    pcs, nm2 = self.relevant_pc(nm)
                    if nm2 == names:
                        break
                    names = nm2
                s.add(*pcs)
                s.add(*ax)
                r = s.check()
                if r == z3.unsat:
                    raise PathAbort()
                if r != z3.sat:
                    raise Unsupported('cannot concretise an integer')
                v = s.model().eval(zx, model_completion=True)
                if not z3.is_rational_value(v):
                    raise Unsupported('non rational integer value')
                val = math.floor(v.as_fraction())
            b = compare(x.r - R.const(val), '==')
            if isinstance(b, bool):
                if b:
                    return val
                raise Unsupported('concretise')
            pos = self.pos
            r = self.branch(b.z)
            if pos < len(self.prefix) and self.pos > pos and \
                    len(self.prefix[pos]) == 2:
                self.prefix[pos].append(val)
            if r:
                return val
        raise PathLimit('too many integer values')

    def assume(self, b):
        if isinstance(b, (bool, np.bool_)):
            if not b:
                raise PathAbort()
            return
        c = z3.simplify(b.z)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        # assumptions are not decisions; feasibility checked lazily
        self.add_pc(c)

    def pc_feasible(self):
        st, m = self.query([z3.BoolVal(True)], self.goal_ms, all_pc=True)
        return st, m

    def next_path(self):
        while self.prefix and not self.prefix[-1][1]:
            self.prefix.pop()
        if not self.prefix:
            return False
        self.prefix[-1][0] = not self.prefix[-1][0]
        self.prefix[-1][1] = False
        return True


def set_ctx(c):
    global CTX
    CTX = c


def reset_tables():
    T.clear()
    ALIASES.clear()
    P.T_has_alg[0] = False
