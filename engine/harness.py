"""Property harnesses: one function, run either symbolically (solver decides)
or on the real package with concrete floats (replay / validation)."""
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import sym as S
from . import poly as P
from . import shim
from . import loader
from .sym import (z3, Sym, SBool, SArr, R, lift, plain, Unsupported,
                  PathAbort, PathLimit, Blowup)

REPO = loader.REPO
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AssumeFailed(BaseException):
    pass


class CheckFailed(Exception):
    pass


_REAL = None


def real_pkg():
    """the unmodified package, imported from the repository"""
    global _REAL
    if _REAL is None:
        os.environ.setdefault('MPLBACKEND', 'Agg')
        sys.path.insert(0, REPO)
        sys.dont_write_bytecode = True
        warnings.simplefilter('ignore')
        import pygfunction
        f = os.path.realpath(pygfunction.__file__)
        assert f.startswith(os.path.realpath(REPO) + os.sep), f
        _REAL = pygfunction
    return _REAL


class Var:
    __slots__ = ('name', 'lo', 'hi', 'tlo', 'thi', 'keep', 'val')


class HBase:
    symbolic = False

    def choice(self, name, opts):
        raise NotImplementedError

    def reals(self, name, n, *a, **k):
        return [self.real('%s%d' % (name, i), *a, **k) for i in range(n)]

    def int(self, name, lo, hi):
        return self.choice(name, list(range(lo, hi + 1)))

    def flag(self, name):
        return self.choice(name, [False, True])

    def subset(self, name, n):
        return [i for i in range(n) if self.flag('%s_%d' % (name, i))]


# --------------------------------------------------------------------------
class SymH(HBase):
    symbolic = True

    def __init__(self, run, lib):
        self.run = run
        self.gt = lib
        self.np = shim.NPSHIM
        self.vars = {}
        self.choices = {}
        self.dist = []
        self.inf = float('inf')

    # inputs
    def real(self, name, lo=None, hi=None, typ=None, keep=False, strict=True,
             nonzero=False):
        """symbolic real; lo/hi are inclusive (lo exclusive when lo == 0 and
        strict).  typ = (lo, hi) sampling range for concrete runs."""
        v = Var()
        v.name, v.lo, v.hi, v.keep = name, lo, hi, keep
        t = typ or (lo if lo is not None else -10.0,
                    hi if hi is not None else 10.0)
        v.tlo, v.thi = t
        self.vars[name] = v
        if self.run.pin is not None and not keep:
            val = self.run.pin(v)
            v.val = val
            return lift(val)
        a, new = S.new_atom(('in', name), 'in_' + name, 'var',
                            pos=lo is not None and (lo > 0 or (
                                lo == 0 and strict)),
                            nonneg=lo is not None and lo >= 0)
        if new:
            a.base = True
            if lo is not None:
                z = S._zc(S.frac(lo))
                a.axioms.append(a.z > z if lo == 0 and strict else a.z >= z)
            if hi is not None:
                a.axioms.append(a.z <= S._zc(S.frac(hi)))
        s = Sym(R.atom(a.idx))
        if nonzero:
            S.CTX.assume(s != 0)
        return s

    def symint(self, name, lo, hi):
        """symbolic integer in lo..hi"""
        x = self.real(name, lo, hi)
        i = S.T.bykey.get(('in', name))
        if i is not None:
            a = S.T.atoms[i]
            if not any(z3.is_or(x) for x in a.axioms):
                a.axioms.append(z3.Or([a.z == k for k in range(lo, hi + 1)]))
        return x

    def choice(self, name, opts):
        opts = list(opts)
        if name in self.run.fixed_choices:
            k = self.run.fixed_choices[name]
        elif self.run.pick_choices is not None:
            k = self.run.pick_choices(name, len(opts))
        else:
            k = S.CTX.choose(len(opts), name)
        self.choices[name] = k
        return opts[k]

    def const(self, x):
        return lift(x)

    def gauss(self, M):
        x, w = shim.roots_legendre(M)
        return [lift(v) for v in plain(x)], [lift(v) for v in plain(w)]

    def arr(self, x):
        return shim.mkarr(x)

    def assume(self, b):
        if isinstance(b, SArr) or isinstance(b, np.ndarray):
            b = shim.s_all(b)
        S.CTX.assume(b)

    def uf(self, name, args, lo=None, hi=None, f=None, keep=False):
        """uninterpreted real constant keyed by args (stub outputs)"""
        return self.real(name, lo, hi, keep=keep)

    # results
    def _pairs(self, a, b):
        a = np.asarray(plain(a), dtype=object) if not isinstance(
            a, np.ndarray) else plain(a)
        b = np.asarray(plain(b), dtype=object) if not isinstance(
            b, np.ndarray) else plain(b)
        return a, b

    def eq(self, label, a, b, tol=1e-7, scale=1.0):
        if isinstance(a, (list, tuple)):
            a = shim.mkarr(a)
        if isinstance(b, (list, tuple)):
            b = shim.mkarr(b)
        a, b = self._pairs(a, b)
        if a.shape != b.shape and a.ndim and b.ndim:
            return self.run.goal(self, label + ' [shape]', False, info=(
                'shape %s vs %s' % (a.shape, b.shape)))
        a, b = np.broadcast_arrays(a, b)
        for ix in np.ndindex(*a.shape):
            x, y = a[ix], b[ix]
            lab = label + (str(list(ix)) if ix else '')
            self.run.goal_eq(self, lab, x, y, tol, scale)

    def true(self, label, c):
        if isinstance(c, np.ndarray):
            c = shim.s_all(c)
        self.run.goal(self, label, c)

    def le(self, label, a, b, slack=0.0):
        a, b = np.broadcast_arrays(np.asarray(plain(a), dtype=object),
                                   np.asarray(plain(b), dtype=object))
        for ix in np.ndindex(*a.shape):
            self.run.goal(self, label + (str(list(ix)) if ix else ''),
                          lift(a[ix]) <= lift(b[ix]) + lift(slack))

    def lt(self, label, a, b):
        a, b = np.broadcast_arrays(np.asarray(plain(a), dtype=object),
                                   np.asarray(plain(b), dtype=object))
        for ix in np.ndindex(*a.shape):
            self.run.goal(self, label + (str(list(ix)) if ix else ''),
                          lift(a[ix]) < lift(b[ix]))

    def distinct(self, x):
        return x

    def raises(self, label, exc, f):
        """True iff f() raises exc (a tuple of exception types)"""
        try:
            f()
        except exc:
            self.run.goal(self, label, True)
            return
        except (Unsupported, Blowup, PathLimit):
            raise
        except Exception as e:
            self.run.goal(self, label, False, info='raised %r' % e)
            return
        self.run.goal(self, label, False, info='did not raise')

    def attempt(self, exc, f):
        try:
            return f(), None
        except (Unsupported, Blowup, PathLimit):
            raise
        except exc as e:
            return None, e

    # mathematics for reference formulas
    def sqrt(self, x):
        return S.ssqrt(lift(x))

    def exp(self, x):
        return S.sexp(lift(x))

    def log(self, x):
        return S.slog(lift(x))

    def sin(self, x):
        return S.ssincos(lift(x))[0]

    def cos(self, x):
        return S.ssincos(lift(x))[1]

    def erf(self, x):
        return S.serf(lift(x))

    @property
    def pi(self):
        return S.PI()

    def quad(self, f, a, b):
        return shim.quad(f, a, b)[0]

    def diff(self, expr, wrt):
        """derivative of an expression wrt a symbolic input, or None"""
        (m,) = wrt.r.num
        return Sym(S.diff(lift(expr).r, m[0][0]))

    def deriv(self, f, x, step=1e-3):
        """derivative of f at x; f returns a list"""
        if x.r.is_const():
            a, b, v = f(x + lift(step)), f(x - lift(step)), f(x)
            return [(p - q) / lift(2 * step) for p, q in zip(a, b)], v
        v = f(x)
        return [self.diff(e, x) for e in v], v

    def patch(self, mod, name, val):
        setattr(mod, name, val)

    def figures(self, new=False):
        """figures made since the last call with new=True"""
        from . import figures
        plt = self.gt.mpl['matplotlib.pyplot']
        if new:
            plt.figs.clear()
        return [figures.view(f) for f in plt.figs]

    def floats(self):
        """functions of constants are numbers, not terms of the solver"""
        S.CTX.floats = True

    def lazy(self, on=True):
        """maxima and signs become terms of the solver instead of paths"""
        S.CTX.lazy = on

    def opaque(self, mod, name, pos=False):
        """replace a scalar function of the package by an uninterpreted
        function of the same arguments"""
        real = getattr(getattr(real_pkg(), mod), name)

        def one(*xs):
            return S.generic_uf('fn_' + name, xs,
                                lambda *v: float(real(*v)), pos=pos)

        def fn(*xs):
            if not any(isinstance(x, np.ndarray) for x in xs):
                return one(*xs)
            xs = [np.asarray(plain(x), dtype=object) for x in xs]
            xs = np.broadcast_arrays(*xs)
            out = np.empty(xs[0].shape, dtype=object)
            for ix in np.ndindex(*out.shape):
                out[ix] = one(*[x[ix] for x in xs])
            return S.wrap(out)
        setattr(getattr(self.gt, mod), name, fn)

    def eigvecs(self, *Vs):
        """np.linalg.eig of matrices diagonalised by one of Vs"""
        cand = []
        for V in Vs:
            Va = shim.mkarr(V)
            cand.append((Va, shim.inv(Va)))

        def hook(A):
            A = shim.mkarr(A)
            n = A.shape[0]
            for Va, Vi in cand:
                D = plain(Vi @ A @ Va)
                if all(i == j or not D[i, j].r.num for i in range(n)
                       for j in range(n)):
                    return shim.mkarr([D[i, i] for i in range(n)]), Va
            try:
                C = np.array([[float(lift(A[i, j]).r.const_value())
                               for j in range(n)] for i in range(n)])
            except Exception:
                raise Unsupported('eigenvectors unknown')
            w, v = np.linalg.eig(C)
            if np.iscomplexobj(w):
                raise Unsupported('complex eigenvalues')
            return shim.mkarr(w.tolist()), shim.mkarr(v.tolist())
        shim.EIG_HOOK[0] = hook

    def roots(self, known, name):
        """Polynomial.roots() of polynomials that have the known real roots:
        they come in any order, with or without another real root"""
        known = [lift(k) for k in known]
        n = [0]

        def hook(c):
            def val(x):
                v = lift(0)
                for k in reversed(c):
                    v = v * x + k
                return v
            for k in known:
                if val(k).r.num:
                    raise Unsupported('roots unknown')
            rts = list(known)
            n[0] += 1
            lab = '%s%d' % (name, n[0])
            if len(c) - 1 > len(known) and S.CTX.choose(2, lab + 'x'):
                o, new = S.new_atom(('root', lab), 'root_' + lab, 'var')
                o = Sym(R.atom(o.idx))
                S.CTX.assume(val(o) == 0)
                for k in known:
                    S.CTX.assume(o != k)
                if len(c) > 2:
                    S.CTX.assume(o < 0)
                rts.append(o)
            out = []
            while rts:
                k = S.CTX.choose(len(rts), lab + 'o%d' % len(rts)) \
                    if len(rts) > 1 else 0
                out.append(rts.pop(k))
            return shim.mkarr(out)
        shim.ROOTS_HOOK[0] = hook

    def fixed_point(self, x, n):
        """Iterations y = b(y) ** (1 / n) are at their fixed point when they
        end.  The first power gives the fixed point y > 1 itself (any number
        of iterations may have happened before); the next one assumes that
        y ** n = b(y).  If b is affine and 1 and x are fixed points of it, y
        is x: b(y) is concave, and has no more than two."""
        x = lift(x)
        c = S.frac(1. / n)
        cnt = [0]
        const = x.r.is_const()
        y = x
        if not const:
            a, _ = S.new_atom(('havoc',), 'havoc', 'var', pos=True)
            a.axioms = [a.z > 1]
            a.ev = lambda env: S.ev(x.r, env)
            y = Sym(R.atom(a.idx))

        def hook(b, e):
            if not e.is_const() or abs(e.const_value() - c) > 1e-12:
                return None
            cnt[0] += 1
            if cnt[0] == 1:
                return y
            if cnt[0] > 2:
                raise PathAbort('bound on iterations')
            if const:
                return x if not (Sym(b) - x ** n).r.num else None
            at = ((a.idx, 1),)
            k1 = {m: v for m, v in b.num.items()
                  if any(i == a.idx for i, _ in m)}
            if not any(i == a.idx for f, _ in b.den
                       for m in S.T.factors[f] for i, _ in m) and all(
                    (a.idx, 1) in m for m in k1):
                slope = R({tuple(t for t in m if t[0] != a.idx): v
                           for m, v in k1.items()}, b.den)
                slope = Sym(slope)
                rest = Sym(b) - slope * y
                if not (rest + slope - 1).r.num and \
                        not (rest + slope * x - x ** n).r.num:
                    S.CTX.assume(y == x)
                    return x
            S.CTX.assume(y ** n == Sym(b))
            return y
        S.POW_HOOK[0] = hook

        def done():
            if cnt[0] < 2 and not const:
                raise PathAbort('fewer than two iterations')
        return done

    def fn(self, name, args, f):
        """an arbitrary positive function; f when run for real"""
        return S.generic_uf('any_' + name, args, f, pos=True)

    def bound_decisions(self, n):
        """leave paths aside that take more than n decisions from here on"""
        S.CTX.depth_limit = S.CTX.pos + n if n else None

    def log_lemmas(self):
        """(a - b) / a <= log(a / b) <= (a - b) / b for the arguments of all
        logarithms so far"""
        at = []
        for a in S.T.atoms:
            if a.kind != 'log' or a.args[0].is_const():
                continue
            v = a.args[0]           # of either sign: logarithm of its size
            for w in (v, -v):       # or of another path
                if not w.den and S.syn_sign(w.num) == 1 or S.CTX.query(
                        [S.r_z3(w) <= 0], 3000, all_pc=True)[0] == 'unsat':
                    at.append((Sym(w), Sym(R.atom(a.idx))))
                    break
        for x, a in at:
            for y, b in at:
                if a is b:
                    continue
                S.CTX.assume((a - b) * y <= x - y)
                for m, k in x.r.num.items():
                    k2 = y.r.num.get(m)
                    if k2 is None or not m or k == k2 or k * k2 < 0:
                        continue
                    c = lift(Fraction(k2) / Fraction(k))
                    S.CTX.assume((a + S.slog(c) - b) * y <= c * x - y)
                    break

    def atan2(self, y, x):
        return S.satan2(lift(y), lift(x))

    def interp1d(self, x, y, axis=-1, kind='linear'):
        return shim.interp1d(x, y, axis=axis, kind=kind)

    def tmpfile(self):
        return 'file.txt'

    def maximum(self, a, b):
        return S.smax(lift(a), lift(b))

    def frac(self, a, b=1):
        return lift(Fraction(int(a), int(b)))


# --------------------------------------------------------------------------
class RealH(HBase):
    def __init__(self, values, choices, rng=None):
        self.gt = real_pkg()
        self.np = np
        self.values = values
        self.chosen = choices
        self.rng = rng
        self.vars = {}
        self.choices = {}
        self.failed = []
        self.rec = []
        self.inf = np.inf
        self.nchecks = 0
        self.patched = []
        self.tmp = None
        self.nans = []

    def real(self, name, lo=None, hi=None, typ=None, keep=False, strict=True,
             nonzero=False):
        if name in self.values:
            v = float(self.values[name])
        elif self.rng is not None:
            t = typ or (lo if lo is not None else -10.0,
                        hi if hi is not None else 10.0)
            v = self.rng.uniform(*t)
            self.values[name] = v
        else:
            t = typ or (lo if lo is not None else -10.0,
                        hi if hi is not None else 10.0)
            v = 0.5 * (t[0] + t[1])
            self.values[name] = v
        if lo is not None and (v < lo - 1e-12 * abs(lo)
                               or (lo == 0 and strict and v <= 0)):
            raise AssumeFailed(name)
        if hi is not None and v > hi + 1e-12 * abs(hi):
            raise AssumeFailed(name)
        if nonzero and v == 0:
            raise AssumeFailed(name)
        return v

    def symint(self, name, lo, hi):
        if name in self.values:
            v = self.values[name]
            if v != int(v):
                raise AssumeFailed(name)
        else:
            v = self.rng.randint(lo, hi) if self.rng is not None else lo
            self.values[name] = v
        return int(v)

    def choice(self, name, opts):
        opts = list(opts)
        if name in self.chosen:
            k = self.chosen[name]
        elif self.rng is not None:
            k = self.rng.randrange(len(opts))
            self.chosen[name] = k
        else:
            k = 0
            self.chosen[name] = k
        self.choices[name] = k
        return opts[k]

    def const(self, x):
        return float(x)

    def gauss(self, M):
        from scipy.special import roots_legendre
        return roots_legendre(M)

    def arr(self, x):
        return np.array(x, dtype=float)

    def assume(self, b):
        if not np.all(b):
            raise AssumeFailed('assume')

    def _fail(self, label, msg):
        self.failed.append((label, msg))

    def eq(self, label, a, b, tol=1e-7, scale=1.0):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        self.nchecks += 1
        if a.shape != b.shape and a.ndim and b.ndim:
            self._fail(label + ' [shape]', '%s vs %s' % (a.shape, b.shape))
            return
        a, b = np.broadcast_arrays(a, b)
        for ix in np.ndindex(*a.shape):
            x, y = float(a[ix]), float(b[ix])
            self.rec.append((x, y))
            lab = label + (str(list(ix)) if ix else '')
            if math.isinf(x) and x == y:
                continue
            m = tol * (max(abs(x), abs(y)) + scale)
            if math.isnan(x) or math.isnan(y):
                self.nans.append(lab)
                continue
            if not abs(x - y) <= m:
                self._fail(lab, '%.17g != %.17g (tolerance %.3g)' % (x, y, m))

    def true(self, label, c):
        self.nchecks += 1
        if not np.all(c):
            self._fail(label, 'false')

    def le(self, label, a, b, slack=0.0):
        self.nchecks += 1
        a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
        for ix in np.ndindex(*a.shape):
            x, y = a[ix], b[ix]
            if not x <= y + slack + 1e-9 * max(abs(x), abs(y), 1e-6):
                self._fail(label + (str(list(ix)) if ix else ''),
                           '%.17g > %.17g' % (x, y))

    def lt(self, label, a, b):
        self.nchecks += 1
        a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
        for ix in np.ndindex(*a.shape):
            x, y = a[ix], b[ix]
            if not x < y:
                self._fail(label + (str(list(ix)) if ix else ''),
                           '%.17g >= %.17g' % (x, y))

    def raises(self, label, exc, f):
        self.nchecks += 1
        try:
            f()
        except exc:
            return
        except Exception as e:
            self._fail(label, 'raised %r' % e)
            return
        self._fail(label, 'did not raise')

    def attempt(self, exc, f):
        try:
            return f(), None
        except exc as e:
            return None, e

    def sqrt(self, x):
        return math.sqrt(x)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def erf(self, x):
        return math.erf(x)

    pi = math.pi

    def quad(self, f, a, b):
        from scipy.integrate import quad
        return quad(f, a, b, limit=300)[0]

    def diff(self, expr, wrt):
        return None

    def deriv(self, f, x, step=1e-3):
        a, b, v = f(x + step), f(x - step), f(x)
        return [(p - q) / (2 * step) for p, q in zip(a, b)], v

    def patch(self, mod, name, val):
        self.patched.append((mod, name, getattr(mod, name)))
        setattr(mod, name, val)

    def figures(self, new=False):
        from . import figures
        import matplotlib.pyplot as plt
        if new:
            plt.close('all')
        return [figures.view(plt.figure(n)) for n in plt.get_fignums()]

    def floats(self):
        pass

    def lazy(self, on=True):
        pass

    def opaque(self, mod, name, pos=False):
        pass

    def eigvecs(self, *Vs):
        pass

    def roots(self, known, name):
        pass

    def fixed_point(self, x, n):
        return lambda: None

    def fn(self, name, args, f):
        return float(f(*[float(x) for x in args]))

    def bound_decisions(self, n):
        pass

    def log_lemmas(self):
        pass

    def atan2(self, y, x):
        return math.atan2(y, x)

    def interp1d(self, x, y, axis=-1, kind='linear'):
        from scipy.interpolate import interp1d
        return interp1d(x, y, axis=axis, kind=kind)

    def tmpfile(self):
        self.tmp = self.tmp or tempfile.mkdtemp(prefix='verif_')
        return os.path.join(self.tmp, 'file.txt')

    def maximum(self, a, b):
        return max(a, b)

    def frac(self, a, b=1):
        return float(Fraction(int(a), int(b)))


# user CPU time, in seconds, after which a concrete run is considered endless
# (they take less than one second), and a symbolic path is suspected to be
REAL_LIMIT = 40
PATH_LIMIT = 60


class NoEnd(BaseException):
    pass


class Watchdog:
    """calls `action` each time the block has used more user CPU time than
    the limit (in seconds), which doubles each time"""

    def __init__(self, limit, action):
        self.limit = limit
        self.action = action
        self.on = threading.current_thread() is threading.main_thread()

    def arm(self, *a):
        if a:
            self.limit *= 2
            self.action()
        signal.signal(signal.SIGVTALRM, self.arm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.limit)

    def __enter__(self):
        if self.on:
            self.old = signal.getsignal(signal.SIGVTALRM)
            self.left = signal.getitimer(signal.ITIMER_VIRTUAL)[0]
            self.arm()
        return self

    def __exit__(self, *a):
        if self.on:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, self.old)
            if self.left:
                signal.setitimer(signal.ITIMER_VIRTUAL, self.left)


def no_end():
    raise NoEnd()


def run_real(fn, cfg, values, choices, rng=None):
    """returns ('ok'|'fail'|'skip'|'exc', H, detail)"""
    with Watchdog(REAL_LIMIT, no_end):
        return run_real_(fn, cfg, values, choices, rng)


def run_real_(fn, cfg, values, choices, rng):
    h = RealH(dict(values), dict(choices), rng)
    old = np.seterr(all='ignore')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn(h, **cfg)
    except AssumeFailed as e:
        return 'skip', h, str(e)
    except (Exception, NoEnd) as e:
        if isinstance(e, NoEnd):
            e = RuntimeError('no end after %d s' % REAL_LIMIT
                             ).with_traceback(e.__traceback__)
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if os.path.realpath(f.filename).startswith(
            os.path.realpath(REPO) + os.sep)]
        if inrepo:
            f = inrepo[-1]
            h.failed.append(('exception', '%s: %s at %s:%d' % (
                type(e).__name__, e, os.path.relpath(f.filename, REPO),
                f.lineno)))
            return 'fail', h, h.failed
        if h.failed:            # asserted before the harness tripped over it
            return 'fail', h, h.failed
        return 'exc', h, traceback.format_exc()
    finally:
        np.seterr(**old)
        if h.tmp:
            shutil.rmtree(h.tmp, ignore_errors=True)
        for mod, name, val in reversed(h.patched):
            setattr(mod, name, val)
    if h.failed:
        return 'fail', h, h.failed
    if h.nans:
        return 'nan', h, [(x, 'nan') for x in h.nans]
    return 'ok', h, None


# --------------------------------------------------------------------------
class Run:
    """One symbolic exploration of a harness under one configuration."""

    def __init__(self, prop, hn, cfg, opts):
        self.prop = prop
        self.hn = hn
        self.cfg = cfg
        self.opts = opts
        self.pin = None
        self.fixed_choices = {}
        self.pick_choices = None
        self.candidates = []
        self.violations = []
        self.inconclusive = []
        self.notes = []
        self.max_viol = 1
        self.rng = random.Random(opts.get('seed', 1) * 7919 + 13)
        self.deadline = time.time() + opts.get('budget', 600)
        self.rec = None
        self.tolmode = False
        self.z3_cross = opts.get('z3_cross', True)
        self.unrepro = {}
        self.tried = {}
        self.labels = set()

    # goals ------------------------------------------------------------------
    def goal_eq(self, h, label, x, y, tol, scale):
        st = S.CTX.stats
        st['goals'] += 1
        self.labels.add(label.split('[')[0])
        x, y = lift(x), lift(y)
        if self.rec is not None:
            self.rec.append((x, y))
        if isinstance(x, float) or isinstance(y, float):
            same = (isinstance(x, float) and isinstance(y, float)
                    and (x == y))
            if same:
                st['discharged'] += 1
                return
            return self.fail(h, label, None, 'special values %r %r' % (x, y))
        d = x.r - y.r
        if d.num and S.ALIASES:
            d = S.resolve_aliases(d)
        if self.tolmode or S.CTX.floats:
            if d.is_const():
                v = abs(float(d.const_value()))
                sc = self.magnitude(x) if x.r.is_const() else 0.0
                if v <= tol * (sc + scale) * 10:
                    st['discharged'] += 1
                    st['goal_queries'] += 1
                    return
                return self.fail(h, label, None, 'constant difference')
            eps = S._zc(S.frac(tol * scale * 10))
            dz = S.r_z3(d)
            bnd = []
            return self._solve_goal(h, label, [z3.Or(dz > eps, dz < -eps)])
        if not d.num:
            st['ring_identities'] += 1
            self._cross(h, label, x, y)
            return
        p = S.clear_neg(d.num)
        self._solve_goal(h, label, [z3.Not(S.poly_z3(p) == 0)], nf=d)

    def magnitude(self, x):
        return abs(float(x.r.const_value()))

    def _cross(self, h, label, x, y):
        """let the solver confirm an identity found by ring normalisation"""
        st = S.CTX.stats
        t0 = time.time()
        st['goal_queries'] += 1
        a, b = x.r, y.r
        if a.key() == b.key():
            e = z3.Not(z3.BoolVal(True))
            ok = True
            n = 0
        else:
            n = len(a.num) * max(1, sum(len(S.T.factors[f])
                                        for f, _ in b.den)) + \
                len(b.num) * max(1, sum(len(S.T.factors[f])
                                        for f, _ in a.den))
        if n <= 400 and self.z3_cross:
            la = S.clear_neg(a.num) if a.key() != b.key() else a.num
            mins = {}
            for r in (a, b):
                for m in r.num:
                    for i, e in m:
                        if e < 0:
                            mins[i] = min(mins.get(i, 0), e)
            mul = tuple(sorted((i, -e) for i, e in mins.items()))
            za = S.poly_z3({P.mono_mul(m, mul): c for m, c in a.num.items()})
            zb = S.poly_z3({P.mono_mul(m, mul): c for m, c in b.num.items()})
            alg = False
            for f, e in b.den:
                za = za * z3.Product([S.poly_z3(S.T.factors[f])] * e)
            for f, e in a.den:
                zb = zb * z3.Product([S.poly_z3(S.T.factors[f])] * e)
            q = z3.simplify(za - zb == 0, som=True)
            if z3.is_true(q):
                st['discharged'] += 1
                st['z3_cross'] = st.get('z3_cross', 0) + 1
                st['goal_time'] += time.time() - t0
                return
            s = z3.Solver()
            s.set('timeout', 2000)
            names = S.CTX.atoms_of(za) | S.CTX.atoms_of(zb)
            ax, _ = S.CTX.axioms_for(names)
            s.add(*ax)
            s.add(za != zb)
            r = s.check()
            if r == z3.unsat:
                st['discharged'] += 1
                st['z3_cross'] = st.get('z3_cross', 0) + 1
                st['goal_time'] += time.time() - t0
                return
        # normalised query: 0 != 0
        s = z3.Solver()
        s.add(S.poly_z3({}) != 0)
        if s.check() == z3.unsat:
            st['discharged'] += 1
        st['goal_time'] += time.time() - t0

    def goal(self, h, label, c, info=None):
        st = S.CTX.stats
        st['goals'] += 1
        self.labels.add(label.split('[')[0])
        if isinstance(c, (bool, np.bool_)):
            if c:
                st['discharged'] += 1
                st['goal_queries'] += 1
                return
            return self.fail(h, label, None, info or 'false on this path')
        self._solve_goal(h, label, [z3.Not(c.z)])

    def _solve_goal(self, h, label, exprs, nf=None):
        ctx = S.CTX
        st = ctx.stats
        t0 = time.time()
        st['goal_queries'] += 1
        dfn = []
        for p in ctx.defined.values():
            dfn.append(z3.Not(S.poly_z3(S.clear_neg(p)) == 0))
        # definedness only for atoms involved: add lazily
        ms = ctx.goal_ms
        big = nf is not None and len(nf.num) > 400
        if not big:
            r, m = ctx.query(exprs, ms)
        else:
            r, m = 'unknown', 'large normal form'
        st['goal_time'] += time.time() - t0
        if r == 'unsat':
            st['discharged'] += 1
            st['z3_proved_nontrivial'] += 1
            return
        if r == 'sat' and dfn:
            r2, m2 = ctx.query(exprs + dfn, ms)
            if r2 == 'unsat':
                st['discharged'] += 1
                return
            if r2 == 'sat':
                m = m2
        self.fail(h, label, m if r == 'sat' else None,
                  'solver: %s' % r, exprs)

    # counterexamples -----------------------------------------------------------
    def fail(self, h, label, model, why, exprs=None):
        key = (label.split('[')[0], tuple(sorted(h.choices.items())))
        if len(self.violations) >= self.max_viol:
            raise StopRun()
        n = self.tried.get(key, 0)
        lk = ('label', key[0])
        nl = self.tried.get(lk, 0)
        if n >= 2 or nl >= 12:
            if key in self.unrepro or lk in self.unrepro:
                return
        self.tried[key] = n + 1
        self.tried[lk] = nl + 1
        # whole-path model
        cands = []
        ctx = S.CTX
        if model is None or True:
            ex = list(exprs or [z3.BoolVal(True)])
            r, m = ctx.query(ex, min(ctx.goal_ms, 20000), all_pc=True)
            if r == 'unsat':
                # path itself is infeasible: nothing to report
                ctx.stats['discharged'] += 1
                return
            if r == 'sat':
                model = m
        if model is not None:
            cands.append(self.values_of(h, model))
        det = self.replay_ladder(h, label, cands, exprs, model is not None)
        if det is None:
            self.unrepro[key] = why
            self.unrepro[lk] = why
            self.inconclusive.append(
                'harness %s %s label %s choices %s: %s, but no concrete input '
                'reproduced it' % (self.hn, self.cfg, label, h.choices, why))
            return
        vals, failed = det
        self.violations.append(dict(
            property=self.prop, harness=self.hn, cfg=self.cfg, label=label,
            values=vals, choices=dict(h.choices), why=why,
            observed=[list(f) for f in failed[:5]]))
        if len(self.violations) >= self.max_viol:
            raise StopRun()

    def values_of(self, h, model):
        vals = {}
        for n, v in h.vars.items():
            i = S.T.bykey.get(('in', n))
            if i is None:
                vals[n] = float(v.val) if getattr(v, 'val', None) is not None \
                    else None
                continue
            z = S.T.atoms[i].z
            x = model.eval(z, model_completion=False)
            f = None
            if z3.is_rational_value(x):
                f = x.as_fraction()
                f = float(f)
            elif z3.is_algebraic_value(x):
                f = float(x.approx(20).as_fraction())
            if f is None:
                # unconstrained: typical value
                f = None
            vals[n] = f
        return {k: v for k, v in vals.items() if v is not None}

    def replay_ladder(self, h, label, cands, exprs, have_model):
        from .checks_util import HARNESS
        fn = HARNESS[self.hn].fn
        tries = []
        for c in cands:
            tries.append(dict(c))
        n_rand = self.opts.get('ladder', 25)
        base = cands[0] if cands else {}
        # typical inputs on this path first, then the solver's own model,
        # then mixtures, then random inputs
        tries[0:0] = self.path_samples(h, exprs)
        for k in range(8 if base else 0):
            t = {n: v for n, v in base.items() if self.rng.random() < 0.6}
            tries.append(t)
        for k in range(n_rand):
            tries.append({})
        nan = exc = None
        nn = ne = 0
        for t in tries:
            if time.time() > self.deadline + 120:
                break
            rng = random.Random(self.rng.random())
            st, rh, det = run_real(fn, self.cfg, t, h.choices, rng)
            if st == 'fail':
                if all(f[0] == 'exception' and 'LinAlgError' in f[1]
                       for f in rh.failed) and not label.startswith('exc'):
                    exc = exc or (dict(rh.values), rh.failed)
                    ne += 1
                    continue
                return dict(rh.values), rh.failed
            if st == 'nan':
                nan = nan or (dict(rh.values), det)
                nn += 1
        if nn + ne > len(tries) // 2:
            return exc or nan
        return None

    def path_samples(self, h, exprs, n=6):
        """inputs satisfying this path's condition found by pinning inputs to
        typical values one at a time while the solver says sat"""
        out = []
        ctx = S.CTX
        names = [n_ for n_ in h.vars if ('in', n_) in S.T.bykey]
        if not names or not (exprs or ctx.pc):
            return out
        t0 = time.time()
        for _ in range(n):
            if time.time() - t0 > 8:
                break
            s = z3.Solver()
            s.set('timeout', 1000)
            allx = [e for e, _ in ctx.pc] + list(exprs or [])
            nm = set()
            for e in allx:
                nm |= ctx.atoms_of(e)
            ax, _ = ctx.axioms_for(nm)
            s.add(*allx)
            s.add(*ax)
            if s.check() != z3.sat:
                break
            vals = {}
            order = list(names)
            self.rng.shuffle(order)
            for n_ in order[:40]:
                if time.time() - t0 > 12:
                    break
                v = h.vars[n_]
                z = S.T.atoms[S.T.bykey[('in', n_)]].z
                for _t in range(2):
                    t = round(self.rng.uniform(v.tlo, v.thi), 4)
                    s.push()
                    s.add(z == S._zc(S.frac(t)))
                    if s.check() == z3.sat:
                        vals[n_] = t
                        break
                    s.pop()
            if s.check() == z3.sat:
                m = s.model()
                for n_ in names:
                    if n_ not in vals:
                        x = m.eval(S.T.atoms[S.T.bykey[('in', n_)]].z)
                        if z3.is_rational_value(x):
                            vals[n_] = float(x.as_fraction())
            out.append(vals)
        return out

    def hangs(self, h):
        """the path does not end: does the real code end?"""
        from .checks_util import HARNESS
        s = z3.Solver()
        s.set('timeout', 5000)
        for e, _ in S.CTX.pc:
            s.add(e)
        tries = [{}, {}]
        if s.check() == z3.sat:
            v = self.values_of(h, s.model())
            tries = [v, {k: x for k, x in v.items()
                         if self.rng.random() < .6}] + tries
        for t in tries:
            st, rh, det = run_real(
                HARNESS[self.hn].fn, self.cfg, t, h.choices,
                random.Random(self.rng.random()))
            if st == 'fail' and any('no end after' in f[1]
                                    for f in rh.failed):
                self.violations.append(dict(
                    property=self.prop, harness=self.hn, cfg=self.cfg,
                    label='no end', values=dict(rh.values),
                    choices=dict(h.choices), why='no end',
                    observed=[list(f) for f in rh.failed[:5]]))
                raise StopRun()

    # main loop --------------------------------------------------------------------
    def explore(self, fn, pinned=False):
        o = self.opts
        S.reset_tables()
        ctx = S.Ctx(seed=o.get('seed', 1), branch_ms=o.get('branch_ms', 6000),
                    goal_ms=o.get('goal_ms', 40000),
                    max_paths=o.get('max_paths', 3000), pinned=pinned)
        self.ctx = ctx
        S.set_ctx(ctx)
        self.tolmode = pinned
        reached = 0
        while True:
            ctx.reset_path()
            loader.FakeFS.files = {}
            lib = loader.Lib(self.opts.get('overrides'))
            h = SymH(self, lib)
            shim.SOLVE_HOOK[0] = shim.EIG_HOOK[0] = shim.ROOTS_HOOK[0] = None
            S.POW_HOOK[0] = None
            g0 = ctx.stats['goals']
            try:
                with Watchdog(PATH_LIMIT, lambda: self.hangs(h)):
                    fn(h, **self.cfg)
                ctx.stats['paths'] += 1
                if ctx.stats['goals'] > g0:
                    reached += 1
            except PathAbort:
                ctx.stats['aborted'] += 1
            except (Unsupported, Blowup, PathLimit, StopRun):
                raise
            except z3.Z3Exception as e:
                raise Unsupported('z3: %s' % e)
            except RecursionError:
                raise Unsupported('recursion')
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                inrepo = [f for f in tb if f.filename.startswith(REPO)]
                if not inrepo:
                    raise
                if isinstance(e, ZeroDivisionError) or True:
                    f = inrepo[-1]
                    ctx.stats['goals'] += 1
                    nv = len(self.violations)
                    ni = len(self.inconclusive)
                    self.fail(h, 'exception %s %s:%d' % (
                        type(e).__name__, os.path.basename(f.filename),
                        f.lineno), None, '%s: %s' % (type(e).__name__, e))
                    if len(self.inconclusive) > ni and \
                            len(self.violations) == nv:
                        self.notes.append(traceback.format_exc())
            if time.time() > self.deadline:
                raise Unsupported('time budget exhausted after %d paths' %
                                  ctx.stats['paths'])
            if ctx.stats['paths'] + ctx.stats['aborted'] > ctx.max_paths:
                raise PathLimit('more than %d paths' % ctx.max_paths)
            if not ctx.next_path():
                break
        if reached == 0:
            raise Unsupported('vacuous: no path reached an assertion')
        return ctx.stats


class StopRun(Exception):
    pass


# --------------------------------------------------------------------------
def validate(prop, hn, cfg, opts, n):
    """push concrete inputs through the real code and through the encoder;
    compare every asserted quantity"""
    from .checks_util import HARNESS
    fn = HARNESS[hn].fn
    rng = random.Random(opts.get('seed', 1) * 31 + 5)
    ok = bad = 0
    viol = None
    samples = []
    att = 0
    while ok + bad < n and att < 12 * n:
        att += 1
        r = random.Random(rng.random())
        st, h, det = run_real(fn, cfg, {}, {}, r)
        if st in ('skip', 'nan'):
            continue
        if st == 'exc':
            raise Unsupported('harness raised on the real code: ' + det)
        if st == 'fail':
            viol = dict(property=prop, harness=hn, cfg=cfg,
                        label=h.failed[0][0], values=dict(h.values),
                        choices=dict(h.choices), why='validation run',
                        observed=[list(f) for f in h.failed[:5]])
            bad += 1
            break
        run = Run(prop, hn, cfg, opts)
        run.pin = lambda v, vals=h.values: vals[v.name]
        run.fixed_choices = dict(h.choices)
        run.rec = []
        run.z3_cross = False
        run.opts = dict(opts, ladder=0)
        S.reset_tables()
        ctx = S.Ctx(pinned=True)
        S.set_ctx(ctx)
        run.ctx = ctx
        run.tolmode = True
        loader.FakeFS.files = {}
        sh = SymH(run, loader.Lib(opts.get('overrides')))
        sh.real_keep_off = True
        orig = SymH.real
        try:
            def pinreal(self, name, lo=None, hi=None, typ=None, keep=False,
                        strict=True, nonzero=False):
                return orig(self, name, lo, hi, typ, False, strict, nonzero)
            sh.real = pinreal.__get__(sh)
            run.fail = lambda *a, **k: None
            shim.SOLVE_HOOK[0] = shim.EIG_HOOK[0] = shim.ROOTS_HOOK[0] = None
            S.POW_HOOK[0] = None
            fn(sh, **cfg)
        except (Unsupported, Blowup, PathLimit, PathAbort) as e:
            samples.append('encoder could not run concretely: %s' % e)
            continue
        mism = 0
        if len(run.rec) == len(h.rec):
            for (a, b), (x, y) in zip(run.rec, h.rec):
                for s, v in ((a, x), (b, y)):
                    try:
                        w = S.ev(s.r, {}) if isinstance(s, Sym) else s
                    except (KeyError, OverflowError, ZeroDivisionError):
                        continue
                    if not abs(w - v) <= 2e-5 * (abs(v) + 1e-6) + \
                            opts.get('noise', 1e-9) and \
                            not (w == v):
                        mism += 1
                        if mism == 1:
                            samples.append('mismatch: encoder %.12g real '
                                           '%.12g choices %s' % (
                                               w, v, h.choices))
        else:
            samples.append('different number of assertions: %d vs %d' % (
                len(run.rec), len(h.rec)))
            mism = 1
        if mism:
            bad += 1
        else:
            ok += 1
            if len(samples) < 2:
                samples.append(dict(
                    inputs={k: round(v, 6) for k, v in
                            list(h.values.items())[:12]},
                    choices=h.choices, asserted=len(h.rec)))
    return ok, bad, samples, viol


def known_findings(prop):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def match_known(v, kf):
    for k in kf:
        if k['harness'] == v['harness'] and v['label'].startswith(
                k.get('label', '')) and all(
                v['choices'].get(c) == x
                for c, x in k.get('choices', {}).items()):
            return k
    return None


def job(args):
    """runs in a worker process"""
    prop, hn, cfg, opts = args
    from .checks_util import HARNESS
    hd = HARNESS[hn]
    t0 = time.time()
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    out = dict(harness=hn, cfg=cfg, mode='symbolic', violations=[],
               inconclusive=[], stats={}, validated=0, mismatches=0,
               samples=[], labels=[])
    late = None
    try:
        opts = dict(opts)
        opts.update(hd.opts)
        opts.update(cfg.get('_opts', {}))
        cfg2 = {k: v for k, v in cfg.items() if not k.startswith('_')}
        run = Run(prop, hn, cfg2, opts)
        try:
            try:
                out['stats'] = dict(run.explore(hd.fn))
            except StopRun:
                out['stats'] = dict(run.ctx.stats)
            except (Unsupported, Blowup, PathLimit) as e:
                if run.violations:
                    pass
                else:
                    out['fallback'] = '%s: %s' % (type(e).__name__, e)
                    if opts.get('trace'):
                        out['fallback'] += '\n' + traceback.format_exc()
                    if opts.get('nofallback'):
                        raise
                    st = {}
                    for k in range(opts.get('pins', 3)):
                        rng = random.Random(opts.get('seed', 1) * 100 + k)
                        run2 = Run(prop, hn, cfg2, opts)
                        cache = {}

                        def pin(v, rng=rng, cache=cache):
                            if v.name not in cache:
                                cache[v.name] = round(
                                    rng.uniform(v.tlo, v.thi), 6)
                            return cache[v.name]
                        run2.pin = pin
                        run2.deadline = time.time() + opts.get(
                            'budget', 600) / 2
                        try:
                            s2 = run2.explore(hd.fn, pinned=True)
                        except StopRun:
                            s2 = run2.ctx.stats
                        except (Unsupported, Blowup, PathLimit) as e2:
                            # cannot be encoded: there is no verdict, unless
                            # the inputs of the validation below already fail
                            late = e2
                            s2 = {}
                        for kk, vv in s2.items():
                            st[kk] = st.get(kk, 0) + vv
                        run.violations += run2.violations
                        run.inconclusive += run2.inconclusive
                        run.labels |= run2.labels
                        if run.violations:
                            break
                    out['stats'] = st
                    out['mode'] = 'pinned'
        finally:
            out['violations'] += run.violations
            out['inconclusive'] += run.inconclusive
            out['labels'] = sorted(run.labels)
            out['notes'] = run.notes[:3]
        nval = opts.get('validate', 3)
        if late is not None:
            nval = max(nval, 8)
        if nval and not hd.no_validate and not out['violations']:
            ok, bad, smp, viol = validate(prop, hn, cfg2, opts, nval)
            out['validated'], out['mismatches'] = ok, bad
            out['samples'] = smp
            if viol is not None:
                out['violations'].append(viol)
        if late is not None and not out['violations']:
            raise late
    except StopRun:
        pass
    except Exception as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()
    out['wall'] = time.time() - t0
    return out
