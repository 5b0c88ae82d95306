"""Loads coniii from the current /repo tree for symbolic execution.

The source files are compiled unchanged; only their environment differs: `import numpy`, `scipy`,
`numba`, `mpmath`, `multiprocess`, ... resolve to symbolic stand-ins, and a few builtins (type, isinstance,
float, sum/max/min, frozenset/set, print) understand symbolic values."""
import ast
import builtins
import importlib
import importlib.util
import itertools
import os
import sys
import types
import numpy as np
from . import expr as E
from . import npx
from .expr import Sym, Unsupported

REPO = os.environ.get('VF_REPO', '/repo')


# ---------------------------------------------------------------- builtins ----------------
class _TMeta(type):
    def __instancecheck__(cls, x):
        return isinstance_(x, cls._real_type)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, '_real_type', c), cls._real_type)

    def __eq__(cls, o):
        return o is cls or o is cls._real_type

    def __hash__(cls):
        return hash(cls._real_type)


class float_(metaclass=_TMeta):
    _real_type = float

    def __new__(cls, x=0.):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.ravel().tolist()[0]
        if isinstance(x, Sym):
            return E.toreal(x) if x.op != 'const_inf' else x
        return float(x)

    fromhex = float.fromhex


class int_(metaclass=_TMeta):
    _real_type = int

    def __new__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.ravel().tolist()[0]
        if isinstance(x, Sym):
            t = E.trunc(E.num(x))
            return int(t.data) if t.op == 'const' else t
        return int(x, *a)


class bool_(metaclass=_TMeta):
    _real_type = bool

    def __new__(cls, x=False):
        return bool(x)


_MAP = {int: int_, float: float_, bool: bool_}


def type_(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, Sym):
        return {'I': int_, 'R': float_, 'B': bool_}[x.sort]
    if isinstance(x, npx.SymArray):
        return np.ndarray
    t = type(x)
    return _MAP.get(t, t)


def _real(t):
    if isinstance(t, tuple):
        return tuple(_real(u) for u in t)
    if t is type_:
        return type
    return getattr(t, '_real_type', t) if isinstance(t, type) else t


def isinstance_(x, t):
    t = _real(t)
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        r = {'I': (int, np.integer), 'R': (float, np.floating), 'B': (bool, np.bool_)}[x.sort]
        return any(isinstance(u, type) and (u is Sym or u is object or any(issubclass(k, u) for k in r)) for u in ts)
    return isinstance(x, t)


def sum_(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def _mm(pick, real, sfn):
    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if 'key' not in k and any(isinstance(x, Sym) for x in xs):
            return sfn(xs)
        return real(xs, **k)
    return f


def fs_(real):
    def f(x=()):
        if isinstance(x, np.ndarray) and x.dtype == object:
            x = x.ravel().tolist() if x.ndim == 1 else list(x)
        elif not isinstance(x, (list, tuple)):
            x = list(x)
        if any(isinstance(v, Sym) and not E.isconst(v) for v in x):
            return npx.SymSet(x)
        return real(npx.conc(v) if isinstance(v, Sym) else v for v in x)
    return f


class _setmeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real_type)


class set_(metaclass=_setmeta):
    _real_type = set

    def __new__(cls, x=()):
        return fs_(set)(x)


class frozenset_(metaclass=_setmeta):
    _real_type = frozenset

    def __new__(cls, x=()):
        return fs_(frozenset)(x)


def range_(*a):
    return range(*[x.__index__() if not isinstance(x, int) else x for x in a])


def len_(x):
    return len(x)


def round_(x, n=None):
    if isinstance(x, Sym):
        return round(x, n) if n is not None else E.rint(x)
    return round(x, n) if n is not None else round(x)


def all_(it):
    for x in it:
        if not x:
            return False
    return True


# ---------------------------------------------------------------- stub modules ------------
def _mod(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    return m


def _ident_decorator(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k and not isinstance(a[0], (_NbType, str)):
        return a[0]
    return lambda f: f


class _NbType:
    def __getitem__(self, k):
        return self

    def __call__(self, *a):
        if len(a) == 1 and not isinstance(a[0], _NbType):
            return a[0]
        return self


def _numba():
    t = {n: _NbType() for n in ('float64', 'int64', 'int8', 'int32', 'uint8', 'float32', 'boolean', 'void', 'intp',
                                'b1', 'i8', 'f8')}
    nb = _mod('numba', jit=_ident_decorator, njit=_ident_decorator, vectorize=_ident_decorator, prange=range_,
              generated_jit=_ident_decorator, jitclass=lambda spec=None: (lambda c: c), **t)
    nb.typed = _mod('numba.typed', List=list, Dict=dict)
    nb.types = _mod('numba.types', **t)
    nb.core = _mod('numba.core')
    nb.experimental = _mod('numba.experimental', jitclass=lambda spec=None: (lambda c: c))
    return nb


class SerialPool:
    def __init__(self, *a, **k):
        init = k.get('initializer')
        if init:
            init(*k.get('initargs', ()))

    def map(self, f, it, *a, **k):
        return [f(x) for x in it]
    imap = map
    imap_unordered = map

    def starmap(self, f, it, *a, **k):
        return [f(*x) for x in it]

    def apply(self, f, a=(), k={}):
        return f(*a, **k)

    def close(self): pass
    def join(self): pass
    def terminate(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


def _mathproxy():
    import math

    class M(types.ModuleType):
        def __getattr__(self, k):
            f = getattr(math, k)
            if not callable(f):
                return f

            def g(*a):
                if any(isinstance(x, Sym) for x in a):
                    nm = {'fabs': 'absolute', 'pow': 'power', 'floor': 'floor', 'ceil': 'ceil'}.get(k, k)
                    if k in ('floor', 'ceil'):
                        return E.floor(E.L(a[0])) if k == 'floor' else -E.floor(-E.L(a[0]))
                    if k in ('comb', 'factorial', 'gcd', 'isqrt'):
                        return f(*[npx.conc(x) for x in a])
                    if k in ('isnan', 'isinf', 'isfinite', 'exp', 'log', 'sqrt') or nm in npx.UF:
                        if k == 'log' and len(a) == 2:
                            return E.log(E.L(a[0])) / E.log(E.L(a[1]))
                        return npx.UF[nm](*a)
                    if k == 'isclose':
                        return npx.NPX.isclose(*a, rtol=1e-9, atol=0)
                    if k in ('prod',):
                        return npx.NPX.prod(a[0])
                    raise Unsupported('math.' + k)
                if k in ('fsum', 'prod'):
                    return npx.NPX.sum(a[0]) if k == 'fsum' else npx.NPX.prod(npx.NPX.array(list(a[0])))
                return f(*a)
            return g
    return M('math')


def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    N = npx.NPX
    a = N.asarray(a)
    w = N.exp(a) if b is None else N.asarray(b) * N.exp(a)
    return npx.NPP.log(N.sum(w, axis=axis, keepdims=keepdims))


def squareform(X, force='no', checks=True):
    X = npx.NPX.asarray(X)
    A = npx.to_obj(X)
    if A.ndim == 1:
        m = len(A)
        n = int(round((1 + (1 + 8 * m)**.5) / 2))
        if n * (n - 1) // 2 != m:
            raise ValueError('Incompatible vector size. It must be a binomial coefficient n choose 2 for some '
                             'integer n >= 2.')
        if m == 0:
            n = 1
        M = npx.NPX.zeros((n, n), dtype=None)
        k = 0
        for i in range(n):
            for j in range(i + 1, n):
                M[i, j] = A[k]
                M[j, i] = A[k]
                k += 1
        return M
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise ValueError('The matrix argument must be square.')
    n = len(A)
    if checks:
        # scipy raises if the matrix is not symmetric / the diagonal not zero
        for i in range(n):
            for j in range(i):
                d = E.L(A[i, j]) - E.L(A[j, i])
                if E.isconst(d) and abs(d.data) > 1e-8 or not E.isconst(d) and not bool(E.eq(d, E.ZERO)):
                    raise ValueError("Distance matrix 'X' must be symmetric.")
        for i in range(n):
            d = E.L(A[i, i])
            if E.isconst(d) and d.data != 0 or not E.isconst(d) and not bool(E.eq(d, E.ZERO)):
                raise ValueError("Distance matrix 'X' diagonal must be zero.")
    r = [A[i, j] for i in range(n) for j in range(i + 1, n)]
    out = npx.wrap(npx.to_obj(r) if r else np.empty(0, dtype=object))
    out.ld = 'f'
    return out


def _special():
    import scipy.special as ss

    class S(types.ModuleType):
        def __getattr__(self, k):
            f = getattr(ss, k)
            if not callable(f):
                return f

            def g(*a, **kw):
                a = npx.native_if_const(tuple(npx.simplify_args(x) for x in a))
                if npx.has_sym(list(a)):
                    raise Unsupported('scipy.special.' + k)
                return npx.wrap(f(*a, **kw))
            return g
    m = S('scipy.special')
    m.__dict__['logsumexp'] = logsumexp
    m.__dict__['expit'] = lambda x: 1 / (1 + npx.NPP.exp(-x))
    return m


class OPT_STORE:
    """Harness-supplied stand-ins for scipy.optimize routines."""
    minimize = root = minimize_scalar = fmin_ncg = check_grad = leastsq = fmin = None



def _opt(name):
    def f(*a, **k):
        h = getattr(OPT_STORE, name, None)
        if h is None:
            raise Unsupported('scipy.optimize.%s not modelled here' % name)
        return h(*a, **k)
    f.__name__ = name
    return f


def _optimize(name='scipy.optimize'):
    class O(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith('__'):
                raise AttributeError(k)
            return _opt(k)
    return O(name)


def _scipy():
    class S(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith('__'):
                raise AttributeError(k)
            if k in ('exp', 'log', 'zeros', 'sqrt', 'transpose', 'dot', 'sum', 'array', 'real', 'imag', 'shape',
                     'ones', 'diag', 'copy', 'mean', 'arange', 'sign', 'sort', 'pi', 'where', 'concatenate',
                     'identity', 'eye', 'outer', 'product', 'prod', 'cov', 'logical_and', 'any', 'all', 'random',
                     'linspace', 'tanh', 'arctanh', 'cosh', 'sinh', 'absolute', 'unique', 'matrix', 'log2', 'inf',
                     'nan', 'isnan', 'floor', 'ceil', 'max', 'min', 'argsort', 'reshape', 'repeat', 'triu', 'tril', 'tri', 'diagonal',
                     'binary_repr', 'real_if_close'):
                if k in ('cov',):
                    raise Unsupported('scipy.cov')
                return getattr(npx.NPP, k)
            if k == 'linalg':
                return npx.NPP.linalg
            import scipy
            return getattr(scipy, k)
    s = S('scipy')
    s.special = _special()
    s.optimize = _optimize()
    s.spatial = _mod('scipy.spatial', distance=_mod('scipy.spatial.distance', squareform=squareform))
    s.misc = _mod('scipy.misc', logsumexp=logsumexp)
    s.integrate = _optimize('scipy.integrate')
    return s


class _MPF:
    """mpmath stand-in: exact symbolic reals."""


def _mpmath():
    def wrapf(nm):
        def f(x):
            return npx.UF[nm](E.L(x))
        return f

    def mpf(x=0, *a):
        if isinstance(x, str):
            from fractions import Fraction
            return E.cst(Fraction(x), 'R')
        return E.toreal(E.L(x))

    class Ctx:
        dps = 15
        prec = 53

    ctx = Ctx()

    class M(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith('__'):
                raise AttributeError(k)
            if k in npx.UF:
                return wrapf(k)
            raise Unsupported('mpmath.' + k)
    m = M('mpmath')
    m.__dict__.update(mp=ctx, mpf=mpf, matrix=lambda x: npx.NPX.array(x), fsum=lambda it: npx._sumlist(list(it)),
                      workdps=lambda n: SerialPool())
    ctx.mpf = mpf
    ctx.exp = wrapf('exp')
    ctx.log = wrapf('log')
    return m


class Digit:
    """Entry number `index` (symbolic) of a table of digits."""

    def __init__(self, table, index):
        self.table, self.index = table, index


class DigitTable(str):
    """A literal table of digits; while `on`, symbolic subscripts are kept instead of enumerated."""
    MARK, on = '0123456789', False

    def __getitem__(self, k):
        if DigitTable.on and isinstance(k, Sym) and E.num(k).op != 'const':
            return Digit(str(self), E.num(k))
        return str.__getitem__(self, k.__index__() if isinstance(k, Sym) else k)


class DType:
    """The element type of an array as the lifted code sees it: the declared kind of a symbolic array."""

    def __init__(self, d):
        self.dtype = d

    def __eq__(self, o):
        if isinstance(o, DType):
            return self.dtype == o.dtype
        o = getattr(o, '_real_type', o) if isinstance(o, type) else o
        return self.dtype == o

    def __hash__(self):
        return hash(self.dtype)

    def __getattr__(self, k):
        if k.startswith('__') and k != '__name__':
            raise AttributeError(k)
        return getattr(self.dtype, k)

    def __str__(self):
        return str(self.dtype)

    __repr__ = __str__


def dtype_of(x):
    if isinstance(x, npx.SymArray):
        if x.dtype == object and x.ld is not None:
            return DType(np.dtype({'i': int, 'f': float, 'b': bool}[x.ld]))
        return DType(x.dtype)
    if isinstance(x, Sym):
        return DType(np.dtype({'I': int, 'B': bool}.get(x.sort, float)))
    return x.dtype


class MarkTables(ast.NodeTransformer):
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == 'dtype' and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name('__dtype__', ast.Load()), [n.value], []), n)
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, str) and n.value.startswith(DigitTable.MARK) and len(n.value) <= 36:
            return ast.copy_location(ast.Call(ast.Name('__digits__', ast.Load()), [n], []), n)
        return n

    def visit_JoinedStr(self, n):
        return n


class Lifter:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.alias = {}
        nb, sp = _numba(), _scipy()
        mpstub = _mod('multiprocess', Pool=SerialPool, cpu_count=lambda: 1, get_context=lambda *a: None)
        self.stubs = {
            'numpy': npx.NPP, 'numpy.random': npx.NPP.random, 'numpy.linalg': npx.NPP.linalg,
            'numba': nb, 'numba.typed': nb.typed, 'numba.types': nb.types, 'numba.experimental': nb.experimental,
            'scipy': sp, 'scipy.special': sp.special, 'scipy.optimize': sp.optimize,
            'scipy.spatial': sp.spatial, 'scipy.spatial.distance': sp.spatial.distance, 'scipy.misc': sp.misc,
            'scipy.linalg': npx.NPP.linalg, 'scipy.integrate': sp.integrate,
            'math': _mathproxy(), 'mpmath': _mpmath(),
            'multiprocess': mpstub, 'multiprocessing': mpstub,
            'matplotlib': _mod('matplotlib'), 'pylab': _mod('pylab'),
            'importlib': _mod('importlib', import_module=lambda n, package=None: self.load(
                n if not n.startswith('.') else (package or 'coniii') + n)
                if n.startswith(('coniii', '.')) else self.imp(n, None, None, ('x',), 0),
                reload=lambda m: m),
        }
        b = dict(builtins.__dict__)
        b.update(type=type_, isinstance=isinstance_, float=float_, int=int_, bool=bool_, sum=sum_,
                 max=_mm(1, max, E.smax), min=_mm(0, min, E.smin), frozenset=frozenset_, set=set_, range=range_,
                 round=round_, print=lambda *a, **k: None, __import__=self.imp)
        b['__digits__'] = DigitTable
        b['__dtype__'] = dtype_of
        self.builtins = b

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            base = pkg[:len(pkg) - level + 1]
            name = '.'.join(base + ([name] if name else []))
        if name.split('.')[0] == 'coniii':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + '.' + f))
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load('coniii')
        if name in self.stubs:
            if fromlist or '.' not in name:
                return self.stubs[name]
            return self.stubs[name.split('.')[0]]
        if name.startswith(('numpy.core', 'numpy._', 'numpy.lib')):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if name.split('.')[0] in ('numpy', 'scipy', 'numba'):
            raise Unsupported('import ' + name)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name.endswith('samplers_ext'):
            raise ModuleNotFoundError("No module named '%s'" % name, name=name)
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        p = os.path.join(self.repo, *name.split('.'))
        ispkg = os.path.isdir(p)
        if ispkg:
            f = os.path.join(p, '__init__.py')
        else:
            f = p + '.py'
            if not os.path.exists(f):
                raise ModuleNotFoundError("No module named '%s'" % name, name=name)
        return self.exec_file(name, f, ispkg)

    def exec_file(self, name, f, ispkg=False, src=None):
        m = types.ModuleType(name)
        m.__file__ = f
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = name if ispkg else name.rsplit('.', 1)[0] if '.' in name else ''
        if ispkg:
            m.__path__ = [os.path.dirname(f)]
        self.mods[name] = m
        if src is None and os.path.exists(f):
            src = open(f).read()
        src = src or ''
        if name == 'coniii':
            # the package __init__ only re-exports; avoid importing everything for single-module checks
            src = ''
        if DigitTable.MARK in src or '.dtype' in src:
            src = ast.fix_missing_locations(MarkTables().visit(ast.parse(src)))
        try:
            exec(compile(src, f, 'exec'), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if '.' in name:
            par, ch = name.rsplit('.', 1)
            if par in self.mods:
                setattr(self.mods[par], ch, m)
        return m
