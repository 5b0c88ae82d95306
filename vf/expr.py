"""Hash-consed symbolic expression DAG used by the lifted (symbolically executed) Python code.

Numbers are exact reals/integers (floats are read as the simplest rational with denominator
<= 10**6 that rounds to them, else as their exact binary value).  Sorts: 'I' integer, 'R' real,
'B' boolean.  Branching on a symbolic boolean calls the active engine (`CUR.decide`), which forks.
"""
from fractions import Fraction
import dis
import math
import sys
import numpy as _np


def _formatting(f):
    """Is the caller evaluating '...' % values?"""
    code = f.f_code.co_code
    return dis.opname[code[f.f_lasti]] == 'BINARY_OP' and code[f.f_lasti + 1] in (6, 19)     # % and %=


class Unsupported(Exception):
    """The lifted code did something the engine cannot encode."""


class _Cur:
    engine = None


CUR = _Cur()
_table = {}
_nodes = []


def reset():
    """Drop all hash-consed nodes (called between harnesses)."""
    _table.clear()
    del _nodes[:]
    global TRUE, FALSE, ZERO, ONE
    TRUE = mk('bconst', (), 'B', True)
    FALSE = mk('bconst', (), 'B', False)
    ZERO = cst(0)
    ONE = cst(1)


def _frac(x):
    f = Fraction(x)
    if f.denominator > 10**6:
        g = f.limit_denominator(10**6)
        if float(g) == x:
            return g
    return f


FORK_ABS = False        # the sign of what abs() is taken of decides the path


class Sym:
    __slots__ = ('op', 'args', 'sort', 'data', 'id', 'pos', '__weakref__')

    # --- identity -------------------------------------------------------------------
    def __hash__(self):
        if self.op == 'const':
            return hash(self.data)
        if self.op == 'bconst':
            return hash(self.data)
        return self.id * 7919 + 13

    def __repr__(self):
        return show(self)

    # --- arithmetic -----------------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(self, neg(o))

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, neg(self))

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        o = lift(o)
        return NotImplemented if o is None else mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(o, self)

    def __floordiv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else floordiv(self, o)

    def __rfloordiv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else floordiv(o, self)

    def __mod__(self, o):
        o = lift(o)
        return NotImplemented if o is None else mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        o = lift(o)
        return NotImplemented if o is None else mod(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        o = lift(o)
        return NotImplemented if o is None else power(self, o)

    def __rpow__(self, o):
        o = lift(o)
        return NotImplemented if o is None else power(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return num(self)

    def __abs__(self):
        a = num(self)
        if a.op == 'const':
            return cst(abs(a.data), a.sort)
        if a.pos:
            return a
        b = neg(a)
        if b.pos:
            return b
        if FORK_ABS:
            return a if bool(le(ZERO, a)) else b
        return ite(le(ZERO, a), a, b)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return neg(floor(neg(self)))

    def __round__(self, nd=None):
        if nd is None:
            return rint(self)
        s = 10**int(nd)
        return div(rint(mul(self, cst(s))), cst(s))

    # --- comparisons ------------------------------------------------------------------
    def __lt__(self, o):
        o = lift(o)
        return NotImplemented if o is None else lt(self, o)

    def __le__(self, o):
        o = lift(o)
        return NotImplemented if o is None else le(self, o)

    def __gt__(self, o):
        o = lift(o)
        return NotImplemented if o is None else lt(o, self)

    def __ge__(self, o):
        o = lift(o)
        return NotImplemented if o is None else le(o, self)

    def __eq__(self, o):
        o = lift(o)
        return NotImplemented if o is None else eq(self, o)

    def __ne__(self, o):
        o = lift(o)
        return NotImplemented if o is None else bnot(eq(self, o))

    # --- boolean ------------------------------------------------------------------------
    def __and__(self, o):
        o = lift(o)
        return NotImplemented if o is None else _bitop('and', self, o)
    __rand__ = __and__

    def __or__(self, o):
        o = lift(o)
        return NotImplemented if o is None else _bitop('or', self, o)
    __ror__ = __or__

    def __xor__(self, o):
        o = lift(o)
        return NotImplemented if o is None else _bitop('xor', self, o)
    __rxor__ = __xor__

    def __invert__(self):
        if self.sort == 'B':
            return bnot(self)
        return add(neg(self), cst(-1))

    def __lshift__(self, o):
        return mul(self, cst(2**lift(o).__index__()))

    def __rlshift__(self, o):
        return mul(lift(o), cst(2**self.__index__()))

    def __rshift__(self, o):
        return floordiv(self, cst(2**lift(o).__index__()))

    def __bool__(self):
        b = tobool(self)
        if b.op == 'bconst':
            return b.data
        if CUR.engine is None:
            raise Unsupported('branch on symbolic value outside an engine')
        return CUR.engine.decide(b)

    def __index__(self):
        a = num(self)
        if a.op == 'const':
            if a.data.denominator != 1 or a.sort == 'R':
                raise TypeError('symbolic float used as an index')
            return int(a.data)
        if a.sort == 'R':
            raise TypeError('symbolic float used as an index')
        if CUR.engine is None:
            raise Unsupported('index with symbolic value outside an engine')
        return CUR.engine.concretize(a)

    def __int__(self):
        a = num(self)
        if a.op == 'const':
            return int(a.data)
        return trunc(a).__index__()

    def __float__(self):
        a = num(self)
        if a.op == 'const':
            return float(a.data)
        if _formatting(sys._getframe(1)):
            return float('nan')     # text of a message
        raise Unsupported('float() of a symbolic value: %s' % show(self, 200))

    def __complex__(self):
        return complex(float(self))

    def __format__(self, spec):
        try:
            a = num(self)
            if a.op == 'const':
                return format(int(a.data) if a.sort == 'I' else float(a.data), spec)
        except Exception:
            pass
        return '<sym>'

    def __str__(self):
        a = self
        if a.op == 'bconst':
            return str(a.data)
        if a.op == 'const':
            return str(int(a.data) if a.sort == 'I' else float(a.data))
        return show(self, 60)

    # --- numpy object-dtype hooks ----------------------------------------------------
    def exp(self): return exp(self)
    def log(self): return log(self)
    def log2(self): return div(log(self), log(cst(2)))
    def log10(self): return div(log(self), log(cst(10)))
    def log1p(self): return log(add(ONE, self))
    def expm1(self): return add(exp(self), cst(-1))
    def exp2(self): return exp(mul(self, log(cst(2))))
    def sqrt(self): return sqrt(self)
    def tanh(self):
        e = exp(mul(cst(2), self))
        return div(add(e, cst(-1)), add(e, ONE))
    def cosh(self): return div(add(exp(self), exp(neg(self))), cst(2))
    def sinh(self): return div(add(exp(self), neg(exp(neg(self)))), cst(2))
    def arctanh(self): return mul(cst(Fraction(1, 2)), log(div(add(ONE, self), add(ONE, neg(self)))))
    def sin(self): return fn('sin', self)
    def cos(self): return fn('cos', self)
    def conjugate(self): return self
    def square(self): return mul(self, self)
    def rint(self): return rint(self)
    def floor(self): return floor(self)
    def ceil(self): return neg(floor(neg(self)))
    def item(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    @property
    def real(self): return self

    @property
    def ndim(self): return 0

    @property
    def shape(self): return ()

    @property
    def size(self): return 1

    def astype(self, t, **k):
        import numpy
        kind = numpy.dtype(t).kind
        if kind in 'iu':
            return trunc(num(self))
        if kind == 'f':
            return toreal(self)
        if kind == 'b':
            return tobool(self)
        raise Unsupported('astype %r' % (t,))

    def is_integer(self):
        a = num(self)
        if a.op == 'const':
            return a.data.denominator == 1
        return eq(a, floor(a))


def _list_ops():
    """list (op) numpy-float broadcasts the list to an array; Python's own float would raise, array elements do not."""
    import operator
    for nm, f in (('add', operator.add), ('sub', operator.sub), ('mul', operator.mul), ('truediv', operator.truediv)):
        for r in ('__%s__' % nm, '__r%s__' % nm):
            old = getattr(Sym, r)

            def new(self, o, old=old, f=f, rev=r.startswith('__r')):
                if isinstance(o, list) and self.sort == 'R':
                    from .npx import NPX
                    o = NPX.array(o)
                    return f(o, self) if rev else f(self, o)
                return old(self, o)
            setattr(Sym, r, new)


_list_ops()


def mk(op, args, sort, data=None, pos=False):
    key = (op, tuple(a.id for a in args), sort, data)
    n = _table.get(key)
    if n is None:
        n = Sym.__new__(Sym)
        n.op, n.args, n.sort, n.data, n.pos = op, tuple(args), sort, data, pos
        n.id = len(_nodes)
        _nodes.append(n)
        _table[key] = n
    return n


def cst(v, sort=None):
    f = Fraction(v)
    if sort is None:
        sort = 'I' if f.denominator == 1 else 'R'
    return mk('const', (), sort, f, pos=f > 0)


def var(name, sort='R', pos=False, dom=None):
    """dom: optional tuple of the finitely many values the variable ranges over."""
    return mk('var', (), sort, (name, tuple(dom) if dom is not None else None), pos=pos)


def isconst(x):
    return x.op in ('const', 'bconst')


def lift(x):
    """Convert a Python/numpy scalar to a Sym; None if it is not a scalar."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, (int, _np.integer)):
        return cst(int(x), 'I')
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return mk('const_inf', (), 'R', repr(x))
        return cst(_frac(x), 'R')
    if isinstance(x, Fraction):
        return cst(x, 'R')
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def L(x):
    r = lift(x)
    if r is None:
        raise Unsupported('not a scalar: %r' % (type(x),))
    return r


def num(x):
    """Coerce booleans to 0/1."""
    if x.sort == 'B':
        return ite(x, ONE, ZERO)
    return x


def toreal(x):
    x = num(x)
    if x.sort == 'R':
        return x
    if x.op == 'const':
        return cst(x.data, 'R')
    return mk('toreal', (x,), 'R', pos=x.pos)


def tobool(x):
    if x.sort == 'B':
        return x
    return bnot(eq(x, ZERO))


def _sort(*a):
    return 'I' if all(x.sort == 'I' for x in a) else 'R'


def _isinf(x):
    return x.op == 'const_inf'


def _strip(x):
    return x.args[0] if x.op == 'toreal' else x


def add(a, b):
    a, b = num(a), num(b)
    if _isinf(a) or _isinf(b):
        if _isinf(a) and _isinf(b) and a.data != b.data:
            return lift(float('nan'))
        return a if _isinf(a) else b
    s = _sort(a, b)
    # n-ary sums in collected form: dict term-id -> (coef)
    terms = {}
    c = Fraction(0)
    for x in (a, b):
        x = _strip(x)
        if x.op == 'const':
            c += x.data
        elif x.op == 'sum':
            for t, k in zip(x.args, x.data[1:]):
                o = terms.get(t.id)
                terms[t.id] = (t, k + (o[1] if o else 0))
            c += x.data[0]
        else:
            k = Fraction(1)
            if x.op == 'prod' and x.args and x.data[0] != 1:
                k = x.data[0]
                x = mkprod(Fraction(1), list(zip(x.args, x.data[1:])), x.sort)
            o = terms.get(x.id)
            terms[x.id] = (x, k + (o[1] if o else 0))
    return mksum(c, terms.values(), s)


def mksum(c, terms, s):
    terms = sorted(((t, k) for t, k in terms if k != 0), key=lambda q: q[0].id)
    if not terms:
        return cst(c, s)
    if c == 0 and len(terms) == 1:
        t, k = terms[0]
        if k == 1:
            return toreal(t) if (s == 'R' and t.sort == 'I') else t
        return mul(cst(k, s), t)
    pos = c >= 0 and all(k > 0 and t.pos for t, k in terms)
    return mk('sum', [t for t, k in terms], s, (c,) + tuple(k for t, k in terms), pos=pos)


def neg(a):
    a = num(a)
    if _isinf(a):
        return lift(-float(a.data))
    return mul(cst(-1, 'I'), a)


def mkprod(c, fac, s):
    """fac: list of (node, int power)."""
    if c == 0:
        return cst(0, s)
    fac = [(t, p) for t, p in fac if p != 0]
    if len(fac) > 1 or c != 1:
        # sums inside products start with a positive coefficient
        nf, ch = [], False
        for t, p in fac:
            if t.op == 'sum' and t.data[1] < 0:
                t = mksum(-t.data[0], [(u, -k) for u, k in zip(t.args, t.data[1:])], t.sort)
                if p % 2:
                    c = -c
                ch = True
            nf.append((t, p))
        if ch:
            d = {}
            for t, p in nf:
                d[t.id] = (t, p + (d[t.id][1] if t.id in d else 0))
            fac = [(t, p) for t, p in d.values() if p != 0]
    fac.sort(key=lambda q: q[0].id)
    if not fac:
        return cst(c, s)
    if c == 1 and len(fac) == 1 and fac[0][1] == 1:
        t = fac[0][0]
        return toreal(t) if (s == 'R' and t.sort == 'I') else t
    pos = c > 0 and all(t.pos or (p % 2 == 0 and p < 0) for t, p in fac)
    return mk('prod', [t for t, p in fac], s, (c,) + tuple(p for t, p in fac), pos=pos)


def _factors(x):
    """x -> (const, {id:(node,power)}) for non-sum x."""
    if x.op == 'const':
        return x.data, {}
    if x.op == 'prod':
        return x.data[0], {t.id: (t, p) for t, p in zip(x.args, x.data[1:])}
    return Fraction(1), {x.id: (x, 1)}


def mul(a, b):
    a, b = num(a), num(b)
    if _isinf(a) or _isinf(b):
        o = b if _isinf(a) else a
        i = a if _isinf(a) else b
        if o.op == 'const' and o.data != 0:
            return i if o.data > 0 else lift(-float(i.data))
        raise Unsupported('inf * symbolic')
    s = _sort(a, b)
    a, b = _strip(a), _strip(b)
    if b.op == 'const':
        a, b = b, a
    if a.op == 'const':
        if a.data == 0:
            return cst(0, s)
        if b.op == 'const':
            return cst(a.data * b.data, s)
        if a.data == 1:
            return toreal(b) if s == 'R' and b.sort == 'I' else b
        if b.op == 'sum':
            return mksum(b.data[0] * a.data, [(t, k * a.data) for t, k in zip(b.args, b.data[1:])], s)
    ca, fa = _factors(a)
    cb, fb = _factors(b)
    f = dict(fa)
    for i, (t, p) in fb.items():
        f[i] = (t, p + (f[i][1] if i in f else 0))
    # merge exponentials: exp(x)^p * exp(y)^q -> exp(p x + q y)
    ex = [(t, p) for t, p in f.values() if t.op == 'exp']
    if len(ex) > 1 or (ex and ex[0][1] != 1):
        arg = ZERO
        for t, p in ex:
            arg = add(arg, mul(cst(p), t.args[0]))
            del f[t.id]
        e = exp(arg)
        if e.op == 'exp':
            f[e.id] = (e, 1)
        else:
            ce, fe = _factors(e)
            ca = ca * ce
            for i, (t, p) in fe.items():
                f[i] = (t, p + (f[i][1] if i in f else 0))
    # products of conditionals on the same condition
    it = [(t, p) for t, p in f.values() if t.op == 'ite']
    if len(it) > 1:
        by = {}
        for t, p in it:
            if p == 1:
                by.setdefault(t.args[0].id, []).append(t)
        for g in by.values():
            if len(g) > 1:
                x, y = g[0].args[1], g[0].args[2]
                for t in g[1:]:
                    x, y = mul(x, t.args[1]), mul(y, t.args[2])
                for t in g:
                    del f[t.id]
                r = mul(mkprod(ca * cb, list(f.values()), s), ite(g[0].args[0], x, y))
                return toreal(r) if s == 'R' and r.sort == 'I' else r
    # spin idempotence: variables over {-1,1} square to 1, over {0,1} square to themselves
    for i, (t, p) in list(f.items()):
        if t.op == 'var' and t.data[1] is not None and p > 1:
            d = set(t.data[1])
            if d <= {-1, 1}:
                f[i] = (t, p % 2)
            elif d <= {0, 1} or d <= {-1, 0, 1} and p % 2:
                f[i] = (t, 1)
            elif d <= {-1, 0, 1}:
                f[i] = (t, 2)
    return mkprod(ca * cb, list(f.values()), s)


def recip(b):
    if b.op == 'const':
        if b.data == 0:
            raise ZeroDivisionError('division by zero (symbolic)')
        return cst(1 / b.data, 'R')
    if b.op == 'prod':
        return mkprod(1 / b.data[0], [(t, -p) for t, p in zip(b.args, b.data[1:])], 'R') if not any(
            t.op == 'exp' for t in b.args) else \
            _recip_exp(b)
    if b.op == 'exp':
        return exp(neg(b.args[0]))
    if b.op == 'sum':
        # normalise by the leading coefficient so that equal denominators up to scale coincide
        k = b.data[1]
        if k != 1:
            t = mksum(b.data[0] / k, [(t, q / k) for t, q in zip(b.args, b.data[1:])], 'R')
            return mkprod(1 / k, [(t, -1)], 'R')
    return mkprod(Fraction(1), [(_strip(b), -1)], 'R')


def _recip_exp(b):
    r = cst(1 / b.data[0], 'R')
    for t, p in zip(b.args, b.data[1:]):
        r = mul(r, exp(neg(mul(cst(p), t.args[0]))) if t.op == 'exp' else mkprod(Fraction(1), [(t, -p)], 'R'))
    return r


def div(a, b):
    a, b = num(a), num(b)
    if _isinf(b):
        return cst(0, 'R')
    if _isinf(a):
        return mul(a, b)
    b = _strip(b)
    if b.op == 'const' and b.data == 0:
        # IEEE semantics: numpy gives inf/nan with a warning
        if a.op == 'const':
            return lift(float('nan') if a.data == 0 else math.copysign(math.inf, a.data))
        return lift(float('nan'))
    if CUR.engine is not None and not isconst(b):
        CUR.engine.note_div(b)
    return toreal(mul(a, recip(b)))


def toint_ok(x):
    return x.sort == 'I'


def floor(a):
    a = num(a)
    if a.op == 'const':
        return cst(math.floor(a.data), 'I')
    if a.sort == 'I':
        return a
    if a.op == 'toreal':
        return a.args[0]
    r = _floor_log(a)
    if r is not None:
        return r
    return mk('floor', (a,), 'I')


def _floor_log(a):
    """floor(log(x)/log(b)) for integer x and constant integer b: forks on the exponent.

    At exact powers of b the value is the one the host's floating-point logarithm gives."""
    if a.op != 'prod' or len(a.args) != 2 or a.data[0] != 1 or CUR.engine is None:
        return None
    d = {p: t for t, p in zip(a.args, a.data[1:])}
    if set(d) != {1, -1} or any(t.op != 'log' for t in d.values()):
        return None
    x, b = d[1].args[0], d[-1].args[0]
    if b.op != 'const' or b.data.denominator != 1 or b.data < 2 or x.sort != 'I':
        return None
    b = int(b.data)
    for e in range(64):
        if bool(lt(x, cst(b**(e + 1)))):
            if bool(eq(x, cst(b**e))):
                return cst(math.floor(math.log(b**e) / math.log(b)))
            j = 1
            while math.floor(math.log(b**(e + 1) - j) / math.log(b)) > e:
                if bool(eq(x, cst(b**(e + 1) - j))):
                    return cst(e + 1)
                j += 1
            return cst(e)
    raise Unsupported('logarithm too large')


def rint(a):
    a = num(a)
    if a.op == 'const':
        return cst(round(a.data), 'I')
    if a.sort == 'I':
        return a
    return floor(add(a, cst(Fraction(1, 2))))


def trunc(a):
    a = num(a)
    if a.op == 'const':
        return cst(math.trunc(a.data), 'I')
    if a.sort == 'I':
        return a
    if a.op == 'toreal':
        return a.args[0]
    return ite(le(ZERO, a), floor(a), neg(floor(neg(a))))


def floordiv(a, b):
    a, b = num(a), num(b)
    if a.op == 'const' and b.op == 'const':
        r = a.data // b.data
        return cst(r, _sort(a, b))
    if a.sort == 'I' and b.sort == 'I':
        if _wide(a) and b.op == 'const' and b.data != 0:
            return floor(div(a, b))
        return cst(a.__index__() // b.__index__(), 'I')
    return toreal(floor(div(a, b)))


def _wide(a):
    """Integer term over a variable without a finite domain that is not yet fixed on this path."""
    if CUR.engine is not None and a.id in CUR.engine.conc:
        return False
    return any(v.data[1] is None for v in all_vars(a))


def mod(a, b):
    a, b = num(a), num(b)
    if a.op == 'const' and b.op == 'const':
        return cst(a.data % b.data, _sort(a, b))
    if a.sort == 'I' and b.sort == 'I':
        if _wide(a) and b.op == 'const' and b.data != 0:
            return add(a, neg(mul(b, floor(div(a, b)))))
        return cst(a.__index__() % b.__index__(), 'I')
    return add(a, neg(mul(b, floor(div(a, b)))))


def power(a, b):
    a, b = num(a), num(b)
    if b.op == 'const':
        if b.data.denominator == 1:
            p = int(b.data)
            if a.op == 'const':
                if a.data == 0 and p < 0:
                    raise ZeroDivisionError
                return cst(a.data ** p, 'I' if (_sort(a, b) == 'I' and p >= 0) else 'R')
            if p == 0:
                return cst(1, _sort(a, b))
            if p < 0:
                return div(ONE, power(a, cst(-p)))
            r = a
            for _ in range(p - 1):
                r = mul(r, a)
            return r if b.sort == 'I' else toreal(r)
        if b.data == Fraction(1, 2):
            return sqrt(a)
        if a.op == 'const' and a.data >= 0:
            v = float(a.data) ** float(b.data)
            return cst(_frac(v), 'R')
    if a.op == 'const' and a.data == 0:
        raise Unsupported('0**symbolic')
    if b.sort == 'I' and not isconst(b):
        return power(a, cst(b.__index__()))
    return exp(mul(b, log(a)))


def sqrt(a):
    a = num(a)
    if a.op == 'const':
        if a.data < 0:
            return lift(float('nan'))
        n, d = math.isqrt(a.data.numerator), math.isqrt(a.data.denominator)
        if n * n == a.data.numerator and d * d == a.data.denominator:
            return cst(Fraction(n, d), 'R')
    if a.op == 'exp':
        return exp(div(a.args[0], cst(2)))
    if a.op == 'prod' and a.data[0] > 0 and all(t.pos and p % 2 == 0 for t, p in zip(a.args, a.data[1:])):
        r = toreal(sqrt(cst(a.data[0])))
        for t, p in zip(a.args, a.data[1:]):
            r = mul(r, power(t, cst(p // 2)))
        return toreal(r)
    return mk('sqrt', (toreal(a),), 'R', pos=a.pos)


def _logish(t):
    return any(x.op == 'log' or x.op == 'sum' and any(y.op == 'log' for y in x.args) for x in t.args[1:])


def exp(a):
    a = num(a)
    if _isinf(a):
        return cst(0, 'R') if a.data.startswith('-') else a
    a = _strip(a)
    if a.op == 'const' and a.data == 0:
        return cst(1, 'R')
    if a.op == 'log':
        return a.args[0]
    if a.op == 'ite' and _logish(a):
        return ite(a.args[0], exp(a.args[1]), exp(a.args[2]))
    if a.op == 'sum':
        for t, k in zip(a.args, a.data[1:]):
            if t.op == 'ite' and _logish(t):
                kk = cst(k)
                return mul(ite(t.args[0], exp(mul(kk, t.args[1])), exp(mul(kk, t.args[2]))),
                           exp(add(a, neg(mul(kk, t)))))
    a0 = a
    if CUR.engine is not None:
        CUR.engine.note_exp(a)
    if a.op == 'prod' and a.data[0].denominator == 1 and len(a.args) == 1 and a.args[0].op == 'log' \
            and a.data[1] == 1 and abs(a.data[0]) < 12:
        return power(a.args[0].args[0], cst(a.data[0]))
    if a.op == 'sum':
        # pull out integer multiples of logs:  exp(k log R + rest) = R^k exp(rest)
        rest, pulled = [], []
        for t, k in zip(a.args, a.data[1:]):
            if t.op == 'log' and k.denominator == 1 and abs(k) < 12:
                pulled.append((t.args[0], int(k)))
            else:
                rest.append((t, k))
        if pulled:
            r = exp(mksum(a.data[0], rest, 'R'))
            for t, k in pulled:
                r = mul(r, power(t, cst(k)))
            return r
    return mk('exp', (toreal(a0) if a0.sort == 'I' else a0,), 'R', pos=True)


def log(a):
    a = num(a)
    if _isinf(a):
        return a
    a = _strip(a)
    if a.op == 'const':
        if a.data == 0:
            return lift(float('-inf'))
        if a.data < 0:
            return lift(float('nan'))
        if a.data == 1:
            return cst(0, 'R')
        return mk('log', (a,), 'R')
    if a.op == 'exp':
        return a.args[0]
    if CUR.engine is not None:
        CUR.engine.note_log(a)
    if a.op == 'prod' and a.data[0] > 0 and all(t.pos for t in a.args):
        r = log(cst(a.data[0]))
        for t, p in zip(a.args, a.data[1:]):
            r = add(r, mul(cst(p), log(t)))
        return toreal(r)
    if a.op == 'sum' and a.pos:
        # normalise content: log(k*(t1 + ...)) = log k + log(t1 + ...)
        k = a.data[1]
        if k != 1:
            inner = mksum(a.data[0] / k, [(t, q / k) for t, q in zip(a.args, a.data[1:])], 'R')
            return add(log(cst(k)), mk('log', (inner,), 'R'))
    return mk('log', (a,), 'R')


def fn(name, *args):
    """Uninterpreted function application (sin, cos, user functions)."""
    args = [num(L(a)) for a in args]
    if all(a.op == 'const' for a in args) and hasattr(math, name):
        v = getattr(math, name)(*[float(a.data) for a in args])
        return cst(_frac(v), 'R')
    return mk('fn', args, 'R', name)


# ---- booleans / comparisons -------------------------------------------------------------
def lt(a, b):
    a, b = num(a), num(b)
    if _isinf(a) or _isinf(b):
        fa = float(a.data) if a.op in ('const', 'const_inf') else 0.
        fb = float(b.data) if b.op in ('const', 'const_inf') else 0.
        return TRUE if fa < fb else FALSE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.data < b.data else FALSE
    d = _strip(add(b, neg(a)))
    if d.op == 'const':
        return TRUE if d.data > 0 else FALSE
    if d.pos:
        return TRUE
    if neg(d).pos:
        return FALSE
    return mk('lt0', (neg(d),), 'B')         # a-b < 0


def le(a, b):
    return bnot(lt(b, a)) if not (_isinf(a) or _isinf(b)) else _leinf(a, b)


def _leinf(a, b):
    fa = float(a.data) if a.op in ('const', 'const_inf') else 0.
    fb = float(b.data) if b.op in ('const', 'const_inf') else 0.
    return TRUE if fa <= fb else FALSE


def eq(a, b):
    if a.sort == 'B' and b.sort == 'B':
        if a is b:
            return TRUE
        if a.op == 'bconst':
            return b if a.data else bnot(b)
        if b.op == 'bconst':
            return a if b.data else bnot(a)
        return mk('iff', sorted((a, b), key=lambda t: t.id), 'B')
    a, b = num(a), num(b)
    if _isinf(a) or _isinf(b):
        return TRUE if (_isinf(a) and _isinf(b) and a.data == b.data and 'nan' not in a.data) else FALSE
    d = _strip(add(a, neg(b)))
    if d.op == 'const':
        return TRUE if d.data == 0 else FALSE
    if d.pos or neg(d).pos:
        return FALSE
    if d.op == 'ite' and isconst(d.args[1]) and isconst(d.args[2]):
        x, y = d.args[1].data == 0, d.args[2].data == 0
        if x and y: return TRUE
        if not x and not y: return FALSE
        return d.args[0] if x else bnot(d.args[0])
    # x == c with x = c + k*ite(cond, .., ..)
    if d.op == 'sum' and len(d.args) == 1 and d.args[0].op == 'ite':
        t = d.args[0]
        if isconst(t.args[1]) and isconst(t.args[2]):
            x = d.data[0] + d.data[1] * t.args[1].data == 0
            y = d.data[0] + d.data[1] * t.args[2].data == 0
            if x and y: return TRUE
            if not x and not y: return FALSE
            return t.args[0] if x else bnot(t.args[0])
    # variable with finite domain
    if d.op in ('sum', 'prod', 'var'):
        vs = free_vars(d, 3)
        if vs is not None and len(vs) <= 1 and all(v.data[1] is not None for v in vs):
            v = next(iter(vs))
            vals = [evalf(d, {v.id: c}) for c in v.data[1]]
            if all(x == 0 for x in vals): return TRUE
            if all(x != 0 for x in vals): return FALSE
    if d.op == 'sum' and d.data[1] < 0 or d.op == 'prod' and d.data[0] < 0:
        d = neg(d)
    return mk('eq0', (d,), 'B')


def free_vars(d, limit):
    out = {}
    st = [d]
    seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var':
            out[x.id] = x
            if len(out) > limit:
                return None
        elif x.op in ('max', 'fn'):
            return None
        st.extend(x.args)
        if len(seen) > 200:
            return None
    return list(out.values())


def bnot(a):
    a = tobool(a)
    if a.op == 'bconst':
        return FALSE if a.data else TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def band(*xs):
    return _nary('and', xs)


def bor(*xs):
    return _nary('or', xs)


def _nary(op, xs):
    unit, zero = (TRUE, FALSE) if op == 'and' else (FALSE, TRUE)
    out = {}
    for x in xs:
        x = tobool(L(x))
        if x is unit:
            continue
        if x is zero:
            return zero
        for y in (x.args if x.op == op else (x,)):
            out[y.id] = y
    for y in out.values():
        if bnot(y).id in out:
            return zero
    if not out:
        return unit
    ys = [out[k] for k in sorted(out)]
    return ys[0] if len(ys) == 1 else mk(op, ys, 'B')


def _bitop(op, a, b):
    if a.sort == 'B' and b.sort == 'B':
        if op == 'and':
            return band(a, b)
        if op == 'or':
            return bor(a, b)
        return bnot(eq(a, b))
    i, j = num(a).__index__(), num(b).__index__()
    return cst({'and': i & j, 'or': i | j, 'xor': i ^ j}[op], 'I')


def ite(c, a, b):
    c = tobool(c)
    if c.op == 'bconst':
        return a if c.data else b
    if a is b:
        return a
    if CUR.engine is not None:
        kn = CUR.engine.known
        if c.id in kn:
            return a
        if bnot(c).id in kn:
            return b
    if a.sort == 'B' and b.sort == 'B':
        return bor(band(c, a), band(bnot(c), b))
    a, b = num(a), num(b)
    if _isinf(a) or _isinf(b):
        return a if bool(c) else b
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    s = _sort(a, b)
    if s == 'R':
        a, b = toreal(a), toreal(b)
    if a is b:
        return a
    return mk('ite', (c, a, b), s, pos=a.pos and b.pos)


def smax(xs):
    """Maximum of a list as one opaque node (encoded by its defining constraints)."""
    xs = [num(L(x)) for x in xs]
    if not xs:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    if any(_isinf(x) for x in xs):
        if any(_isinf(x) and x.data == 'inf' for x in xs):
            return lift(float('inf'))
        ys = [x for x in xs if not _isinf(x)]
        if not ys:
            return xs[0]
        xs = ys
    u = {}
    for x in xs:
        u[x.id] = x
    cs = [x for x in u.values() if x.op == 'const']
    if len(cs) > 1:
        m = max(cs, key=lambda c: c.data)
        u = {i: x for i, x in u.items() if x.op != 'const' or x is m}
    ys = [u[k] for k in sorted(u)]
    if len(ys) == 1:
        return ys[0]
    s = _sort(*ys)
    if s == 'R':
        ys = [toreal(y) for y in ys]
    return mk('max', ys, s, pos=any(y.pos for y in ys))


def smin(xs):
    return neg(smax([neg(num(L(x))) for x in xs]))


# ---- utilities ---------------------------------------------------------------------------
def show(x, lim=400):
    def f(x, d):
        if d > 8:
            return '...'
        o = x.op
        if o == 'const': return str(x.data)
        if o == 'bconst': return str(x.data)
        if o == 'var': return x.data[0]
        if o == 'const_inf': return x.data
        if o == 'sum':
            s = ' + '.join(([str(x.data[0])] if x.data[0] else []) + [
                (f(t, d + 1) if k == 1 else '%s*%s' % (k, f(t, d + 1))) for t, k in zip(x.args, x.data[1:])])
            return '(' + s + ')'
        if o == 'prod':
            return '*'.join(([str(x.data[0])] if x.data[0] != 1 else []) + [
                (f(t, d + 1) if k == 1 else '%s^%s' % (f(t, d + 1), k)) for t, k in zip(x.args, x.data[1:])])
        if o == 'fn': return x.data + '(' + ','.join(f(t, d + 1) for t in x.args) + ')'
        if o == 'toreal': return f(x.args[0], d)
        return o + '(' + ','.join(f(t, d + 1) for t in x.args) + ')'
    s = f(x, 0)
    return s if len(s) <= lim else s[:lim] + '...'


class Marginal(Exception):
    """A comparison is too close to call in floating point."""


def _sgn(v, margin):
    if margin is not None and isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            raise Marginal()
        if abs(v) < margin:
            raise Marginal()
    return v


def evalf(x, env, cache=None, fns=None, margin=None):
    """Evaluate with env: var id -> number (floats or Fractions).  Returns number or bool."""
    if cache is None:
        cache = {}
    order, st = [], [(x, False)]
    seen = set()
    while st:
        n, done = st.pop()
        if done:
            order.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, True))
        for a in n.args:
            if a.id not in seen:
                st.append((a, False))
    for n in order:
        if n.id in cache:
            continue
        a = [cache[y.id] for y in n.args]
        o = n.op
        if o in ('const', 'bconst'): v = n.data
        elif o == 'const_inf': v = float(n.data)
        elif o == 'var':
            v = env[n.id]
        elif o == 'sum':
            v = n.data[0]
            for t, k in zip(a, n.data[1:]):
                v = v + (k * t if not isinstance(t, float) else float(k) * t)
        elif o == 'prod':
            v = n.data[0]
            for t, p in zip(a, n.data[1:]):
                if isinstance(t, float):
                    v = float(v) * t**p
                else:
                    v = v * (t**p if p > 0 else Fraction(1) / t**(-p)) if t != 0 or p > 0 else float('nan')
        elif o == 'exp':
            v = math.exp(a[0]) if a[0] < 700 else float('inf')
        elif o == 'log':
            v = math.log(a[0]) if a[0] > 0 else (float('-inf') if a[0] == 0 else float('nan'))
        elif o == 'sqrt': v = math.sqrt(a[0]) if a[0] >= 0 else float('nan')
        elif o == 'toreal': v = a[0]
        elif o == 'floor': v = math.floor(a[0])
        elif o == 'max': v = max(a)
        elif o == 'ite': v = a[1] if a[0] else a[2]
        elif o == 'lt0': v = _sgn(a[0], margin) < 0
        elif o == 'eq0': v = _sgn(a[0], margin) == 0
        elif o == 'not': v = not a[0]
        elif o == 'and': v = all(a)
        elif o == 'or': v = any(a)
        elif o == 'iff': v = bool(a[0]) == bool(a[1])
        elif o == 'fn':
            v = (fns or {}).get(n.data) or getattr(math, n.data)
            v = v(*a)
        else:
            raise Unsupported('eval ' + o)
        cache[n.id] = v
    return cache[x.id]


def diff(x, v, cache=None):
    """d x / d v (formal; `max` nodes get a free derivative symbol)."""
    if cache is None:
        cache = {}
    def d(n):
        r = cache.get(n.id)
        if r is not None:
            return r
        o = n.op
        if n is v:
            r = ONE
        elif o in ('const', 'var', 'const_inf'):
            r = ZERO
        elif o == 'sum':
            r = ZERO
            for t, k in zip(n.args, n.data[1:]):
                r = add(r, mul(cst(k), d(t)))
        elif o == 'prod':
            r = ZERO
            fs = list(zip(n.args, n.data[1:]))
            for i, (t, p) in enumerate(fs):
                dt = d(t)
                if dt is ZERO or (dt.op == 'const' and dt.data == 0):
                    continue
                q = [(u, w - 1 if j == i else w) for j, (u, w) in enumerate(fs)]
                term = cst(n.data[0] * p, 'R')
                for u, w in q:
                    if w:
                        term = mul(term, power(u, cst(w)))
                r = add(r, mul(term, dt))
        elif o == 'exp':
            r = mul(n, d(n.args[0]))
        elif o == 'log':
            r = div(d(n.args[0]), n.args[0])
        elif o == 'sqrt':
            r = div(d(n.args[0]), mul(cst(2), n))
        elif o == 'toreal':
            r = d(n.args[0])
        elif o == 'ite':
            r = ite(n.args[0], d(n.args[1]), d(n.args[2]))
        elif o == 'max':
            r = var('d_max_%d_%s' % (n.id, v.data[0])) if v.id in {u.id for u in all_vars(n)} else ZERO
        elif o == 'fn' and n.data in ('sin', 'cos'):
            a = n.args[0]
            r = mul(fn('cos', a) if n.data == 'sin' else neg(fn('sin', a)), d(a))
        else:
            raise Unsupported('diff ' + o)
        cache[n.id] = r
        return r
    return d(x)


def has_op(xs, ops):
    seen, st = set(), list(xs)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ops:
            return True
        st.extend(x.args)
    return False


def rebuild(n, a):
    """n with its arguments replaced by a."""
    o = n.op
    if o == 'sum':
        r = cst(n.data[0], n.sort)
        for t, k in zip(a, n.data[1:]):
            r = add(r, mul(cst(k), t))
        return r
    if o == 'prod':
        r = cst(n.data[0], n.sort)
        for t, p in zip(a, n.data[1:]):
            r = mul(r, power(t, cst(p)))
        return r
    f = {'exp': exp, 'log': log, 'sqrt': sqrt, 'toreal': toreal, 'floor': floor, 'ite': ite, 'not': bnot,
         'and': band, 'or': bor, 'iff': eq}.get(o)
    if f is not None:
        return f(*a)
    if o == 'max':
        return smax(a)
    if o == 'fn':
        return mk('fn', a, n.sort, n.data)
    if o == 'lt0':
        return lt(a[0], ZERO)
    if o == 'eq0':
        return eq(a[0], ZERO)
    return mk(o, a, n.sort, n.data, n.pos)


def canon_shift(x, poly, cache=None):
    """Rewrites every sum of exponentials S as exp(m)*S' with m the largest exponent in a translation-invariant
    order, so that ratios of such sums do not depend on a common shift of their exponents."""
    if cache is None:
        cache = {}
    import functools

    def cmp(p, q):
        for m in sorted(set(p) | set(q)):
            d = p.get(m, 0) - q.get(m, 0)
            if d:
                return 1 if d > 0 else -1
        return 0
    st = [(x, False)]
    while st:
        n, done = st.pop()
        if n.id in cache:
            continue
        if not done:
            st.append((n, True))
            st.extend((a, False) for a in n.args if a.id not in cache)
            continue
        a = [cache[t.id] for t in n.args]
        r = n if all(u is v for u, v in zip(a, n.args)) else rebuild(n, a)
        if r.op == 'sum' and len(r.args) > 1 and all(t.op == 'exp' for t in r.args):
            try:
                ps = [poly(t.args[0]) for t in r.args] + ([{}] if r.data[0] else [])
            except Exception:
                ps = None
            if ps is not None:
                top = max(range(len(ps)), key=functools.cmp_to_key(lambda i, j: cmp(ps[i], ps[j])))
                if top < len(r.args):
                    m = r.args[top].args[0]
                    s = cst(0)
                    terms = []
                    c = Fraction(0)
                    for t, k in zip(r.args, r.data[1:]):
                        e = exp(add(t.args[0], neg(m)))
                        if e.op == 'const':
                            c += k * e.data
                        else:
                            terms.append((e, k))
                    if r.data[0]:
                        terms.append((exp(neg(m)), r.data[0]))
                    s = mksum(c, terms, 'R')
                    r = mul(exp(m), s)
        cache[n.id] = r
    return cache[x.id]


def all_vars(*xs):
    out = {}
    seen = set()
    st = list(xs)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var':
            out[x.id] = x
        st.extend(x.args)
    return list(out.values())


TRUE = FALSE = ZERO = ONE = None
reset()
