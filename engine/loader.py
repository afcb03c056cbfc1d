"""Loads /repo's modules from their current source so that they execute on
symbolic values: float literals become exact decimals, integer true division
is exact, array subscripts accept symbolic masks, and numpy / scipy / math are
the stand-ins of shim.py."""
import ast
import builtins
import math
import os
import re
import sys
import types
from fractions import Fraction

import numpy as np

from . import sym as S
from . import figures
from . import shim
from .sym import Sym, SBool, SArr, lift, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.infmt = 0

    def visit_Constant(self, n):
        if isinstance(n.value, float) and math.isfinite(n.value):
            return ast.copy_location(ast.Call(
                func=ast.Name('__lit__', ast.Load()),
                args=[ast.Constant(repr(n.value))], keywords=[]), n)
        if isinstance(n.value, complex):
            return ast.copy_location(ast.Call(
                func=ast.Name('__clit__', ast.Load()),
                args=[n], keywords=[]), n)
        return n

    def visit_JoinedStr(self, n):
        # messages: formatting is not the subject
        return n

    def visit_AnnAssign(self, n):
        n.annotation = ast.Constant(None)
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        n.annotation = None
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        self.generic_visit(n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(
                func=ast.Name('__div__', ast.Load()),
                args=[n.left, n.right], keywords=[]), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(
                func=ast.Name('__pow__', ast.Load()),
                args=[n.left, n.right], keywords=[]), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[n.target],
                value=ast.Call(func=ast.Name('__idiv__', ast.Load()),
                               args=[ast.Name(n.target.id, ast.Load()),
                                     n.value], keywords=[])), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        sl = n.slice
        if isinstance(sl, (ast.Constant, ast.Slice)):
            return n
        if isinstance(n.value, ast.Attribute) and n.value.attr in (
                'r_', 'c_', 's_', 'mgrid', 'ogrid', 'index_exp'):
            return n
        if isinstance(sl, ast.Tuple) and any(
                isinstance(e, (ast.Slice, ast.Starred)) for e in sl.elts):
            sl.elts = [e if isinstance(e, (ast.Slice, ast.Starred,
                                           ast.Constant)) else
                       self._ix(e) for e in sl.elts]
            return n
        n.slice = self._ix(sl)
        return n

    def _ix(self, e):
        return ast.copy_location(ast.Call(
            func=ast.Name('__ix__', ast.Load()), args=[e], keywords=[]), e)


_LITS = {}


def _lit(s):
    v = _LITS.get(s)
    if v is None:
        v = _LITS[s] = Sym(S.R.const(S.frac(Fraction(s))))
    return v


INTS = (int, np.integer)


def _div(a, b):
    if isinstance(a, INTS) and isinstance(b, INTS):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return Sym(S.R.const(S.P._fr(Fraction(int(a), int(b)))))
    if isinstance(a, (int, float, np.generic)) and not isinstance(a, Sym) \
            and not S.is_special(a):
        a = lift(a)
    if isinstance(b, (int, float, np.generic)) and not isinstance(b, Sym) \
            and not S.is_special(b):
        b = lift(b)
    if isinstance(a, np.ndarray) and not isinstance(a, SArr):
        a = shim.mkarr(a) if a.dtype.kind in 'iubf' else a
    if isinstance(b, np.ndarray) and not isinstance(b, SArr):
        b = shim.mkarr(b) if b.dtype.kind in 'iubf' else b
    return a / b


def _idiv(a, b):
    if isinstance(a, np.ndarray):
        a /= b
        return a
    return _div(a, b)


def _pow(a, b):
    if isinstance(a, INTS) and isinstance(b, INTS):
        return int(a) ** int(b) if b >= 0 else Sym(S.R.const(
            Fraction(int(a)) ** int(b)))
    if isinstance(a, np.ndarray) and not isinstance(a, SArr) and \
            a.dtype.kind in 'iu' and not (isinstance(b, INTS) and b >= 0):
        a = shim.mkarr(a)
    return a ** b


def _ix(i):
    if isinstance(i, SArr):
        f = S.plain(i).ravel()
        if f.size and isinstance(f[0], Sym):
            return np.array([v.__index__() for v in f], int).reshape(i.shape)
        return S.conc_mask(i)
    if isinstance(i, SBool):
        return bool(i)
    if isinstance(i, tuple):
        return tuple(_ix(v) for v in i)
    if isinstance(i, Sym):
        if i.r.is_const():
            c = Fraction(i.r.const_value())
            return int(c) if c.denominator == 1 else i
        return i.__index__() if CURRENT_INDEXABLE else i
    return i


CURRENT_INDEXABLE = False


class FakeFS:
    files = {}


def _fmt_value(fmt, x):
    """the value read back after printing x with fmt"""
    m = re.fullmatch(r'%[-+ 0]*\d*(?:\.(\d+))?([efgdis])', fmt)
    if m is None:
        raise Unsupported('savetxt format %r' % fmt)
    p, t = m.group(1), m.group(2)
    x = lift(x)
    if t in 'egs' and (t == 's' or (p is not None and int(p) >= 16)):
        return x
    if t in 'di':
        return x.trunc()
    if t == 'f':
        q = 10 ** int(p if p is not None else 6)
        return (x * q + lift(Fraction(1, 2))).floor() / q
    # rounding to a number of digits: some value close to x
    d = int(p if p is not None else 6)
    u = S.generic_uf('round_%s%d' % (t, d), [x], lambda v: float(fmt % v))
    return u


def _savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='',
             footer='', comments='# ', encoding=None):
    X = S.plain(S.mkarr(X))
    X = np.atleast_2d(X) if X.ndim != 1 else X[:, None]
    lines = []
    for ln in (header.split('\n') if header else []):
        lines.append((comments + ln, None, None))
    for r in X:
        f = list(fmt) if isinstance(fmt, (list, tuple)) else \
            re.findall(r'%[^%]*?[a-z]', fmt)
        if len(f) == 1:
            f = f * len(r)
        if len(f) != len(r):
            raise ValueError('fmt has wrong number of % formats')
        lines.append((None, [_fmt_value(g.strip(), v)
                             for g, v in zip(f, r)], delimiter))
    for ln in (footer.split('\n') if footer else []):
        lines.append((comments + ln, None, None))
    FakeFS.files[str(fname)] = lines


def _loadtxt(fname, dtype=float, comments='#', delimiter=None,
             converters=None, skiprows=0, usecols=None, unpack=False,
             ndmin=0, encoding=None, max_rows=None, quotechar=None,
             like=None):
    lines = FakeFS.files[str(fname)][skiprows:]
    rows = []
    for text, vals, delim in lines:
        if vals is None:
            if comments is not None and text.lstrip().startswith(comments):
                continue
            if not text.strip():
                continue
            raise ValueError('could not convert string %r to float' % text)
        if (delimiter or '').strip() != delim.strip() or (
                delimiter is not None and delim != delimiter):
            raise ValueError('could not convert string to float')
        rows.append(list(vals))
    if max_rows is not None:
        rows = rows[:max_rows]
    if usecols is not None:
        cols = [usecols] if isinstance(usecols, int) else list(usecols)
        rows = [[r[c] for c in cols] for r in rows]
    arr = S.mkarr(rows)
    if ndmin < 2:
        if arr.shape[0] == 1 and ndmin < 2:
            arr = arr[0]
        elif arr.shape[1] == 1:
            arr = arr[:, 0]
    if unpack:
        arr = arr.T
    return arr


class Lib:
    """One symbolic instance of the package."""

    def __init__(self, overrides=None):
        self.mods = {}
        self.overrides = overrides or {}
        self.sci = shim.scipy_modules()
        self.mpl = figures.modules()
        self.warnings = types.SimpleNamespace(
            warn=lambda *a, **k: None, simplefilter=lambda *a, **k: None,
            catch_warnings=_NullCtx, filterwarnings=lambda *a, **k: None)
        b = dict(builtins.__dict__)
        b.update({
            '__import__': self._import, 'float': shim.s_float,
            'int': shim.s_int, 'type': shim.s_type, 'max': shim.s_max_b, 'min': shim.s_min_b,
            'round': shim.s_round, '__lit__': _lit, '__clit__': lift, '__div__': _div,
            '__pow__': _pow, '__ix__': _ix, '__idiv__': _idiv,
            'print': lambda *a, **k: None,
            'pow': _pow,
        })
        self.builtins = b
        self.math = shim._MathShim()

    # module access -------------------------------------------------------------
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self.load('pygfunction.' + n)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.split('.')[1:]
        base = os.path.join(REPO, 'pygfunction', *rel)
        is_pkg = os.path.isdir(base)
        path = os.path.join(base, '__init__.py') if is_pkg else base + '.py'
        if not os.path.exists(path):
            raise ImportError(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rpartition('.')[0]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        code = compile_file(path)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        for (mod, attr), v in self.overrides.items():
            if mod == name:
                setattr(m, attr, v)
        parent = name.rpartition('.')[0]
        if parent in self.mods:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m

    def _import(self, name, globs=None, locs=None, fromlist=(), level=0):
        if level:
            pkg = globs['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = pkg + ('.' + name if name else '')
            if full == 'pygfunction':
                ns = types.SimpleNamespace()
                for f in fromlist:
                    setattr(ns, f, self.load('pygfunction.' + f))
                return ns
            m = self.load(full)
            for f in fromlist or ():
                if not hasattr(m, f):
                    try:
                        self.load(full + '.' + f)
                    except ImportError:
                        pass
            return m
        if name == 'pygfunction' or name.startswith('pygfunction.'):
            return self.load(name)
        if name == 'numpy':
            return shim.NPSHIM
        if name == 'numpy.typing':
            return _typing_stub()
        if name == 'numpy.polynomial.polynomial':
            # "import numpy.polynomial.polynomial as poly"
            return shim.NPSHIM if not fromlist else \
                shim.NPSHIM.polynomial.polynomial
        if name in ('numpy.polynomial',):
            return shim.NPSHIM if not fromlist else shim.NPSHIM.polynomial
        if name == 'numpy.linalg':
            return shim.NPSHIM if not fromlist else shim.NPSHIM.linalg
        if name.split('.')[0] == 'scipy':
            if name not in self.sci:
                raise Unsupported('import %s' % name)
            return self.sci[name] if fromlist else self.sci['scipy']
        if name == 'math':
            return self.math
        if name == 'warnings':
            return self.warnings
        if name == 'matplotlib' or name.startswith('matplotlib'):
            if name not in self.mpl:
                raise Unsupported('import %s' % name)
            return self.mpl[name] if fromlist else self.mpl['matplotlib']
        if name.startswith('scp'):
            return _scp_stub(self)
        return builtins.__import__(name, globs, locs, fromlist, level)


class _NullCtx:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return []

    def __exit__(self, *a):
        return False


class _Any:
    def __getitem__(self, k):
        return self

    def __getattr__(self, n):
        return self

    def __call__(self, *a, **k):
        return self

    def __or__(self, o):
        return self
    __ror__ = __or__


def _typing_stub():
    # import numpy.typing as npt
    ns = types.SimpleNamespace()
    ns.typing = types.SimpleNamespace(ArrayLike=object, NDArray=_Any())
    ns.ArrayLike = object
    ns.NDArray = _Any()
    return ns


def _scp_stub(lib):
    """secondary-coolant property library: uninterpreted, positive functions
    of (fluid, fraction, temperature)"""
    def mk(cname, nm):
        class Fl:
            def __init__(self, x=0.0):
                self.x = lift(x)
                self.fluid_name = nm

            def _f(self, p, T):
                return S.generic_uf('%s_%s' % (nm, p), [self.x, lift(T)],
                                    lambda *a: 1.0, pos=True)

            def density(self, T):
                return self._f('rho', T)

            def viscosity(self, T):
                return self._f('mu', T)

            def specific_heat(self, T):
                return self._f('cp', T)

            def conductivity(self, T):
                return self._f('k', T)

            def prandtl(self, T):
                return self.specific_heat(T) * self.viscosity(T) / \
                    self.conductivity(T)
        Fl.__name__ = cname
        return Fl
    return types.SimpleNamespace(
        Water=mk('Water', 'Water'),
        EthylAlcohol=mk('EthylAlcohol', 'EthylAlcohol'),
        EthyleneGlycol=mk('EthyleneGlycol', 'EthyleneGlycol'),
        MethylAlcohol=mk('MethylAlcohol', 'MethylAlcohol'),
        PropyleneGlycol=mk('PropyleneGlycol', 'PropyleneGlycol'))


_CODE = {}


def compile_file(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _CODE:
        src = open(path).read()
        tree = ast.parse(src, path)
        tree = Tr().visit(tree)
        ast.fix_missing_locations(tree)
        _CODE[key] = compile(tree, path, 'exec', dont_inherit=True)
    return _CODE[key]


shim.OVERRIDE['savetxt'] = _savetxt
shim.OVERRIDE['loadtxt'] = _loadtxt
