"""Symbolic stand-ins for numpy (object arrays of expr.Sym) used while executing lifted coniii code."""
import functools
import itertools
import math
import types
import numpy as np
from . import expr as E
from .expr import Sym, Unsupported


def is_sym(x):
    return isinstance(x, Sym)


def has_sym(a):
    if isinstance(a, Sym):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object and any(isinstance(v, Sym) for v in a.ravel().tolist())
    if isinstance(a, (list, tuple)):
        return any(has_sym(v) for v in a)
    return False


def elem(v):
    if isinstance(v, Sym):
        return v
    r = E.lift(v)
    return v if r is None else r


_elem_arr = np.frompyfunc(elem, 1, 1)


def coerce_to(v, ld):
    """Value stored into an array of declared kind ld."""
    v = elem(v)
    if not isinstance(v, Sym):
        return v
    if ld == 'i':
        return E.trunc(E.num(v)) if v.op != 'const_inf' else v
    if ld == 'f':
        return E.toreal(v) if v.op != 'const_inf' else v
    if ld == 'b':
        return E.tobool(v)
    return v


class SymArray(np.ndarray):
    """ndarray (object or native dtype).  `ld`: declared kind of an object array ('i','f','b' or None)."""
    ld = None

    def __array_finalize__(self, obj):
        if obj is not None:
            self.ld = getattr(obj, 'ld', None)

    # -- indexing -----------------------------------------------------------------------
    @staticmethod
    def _ix(k):
        if isinstance(k, Sym):
            if k.sort == 'B':
                return bool(k)
            return k.__index__()
        if isinstance(k, tuple):
            return tuple(SymArray._ix(i) for i in k)
        if isinstance(k, list) and has_sym(k):
            return SymArray._ix(np.array([elem(i) for i in k], dtype=object))
        if isinstance(k, np.ndarray) and k.dtype == object:
            flat = k.ravel().tolist()
            if not flat:
                return np.zeros(k.shape, dtype=int)
            if all((isinstance(v, Sym) and v.sort == 'B') or isinstance(v, (bool, np.bool_)) for v in flat):
                return np.array([bool(v) for v in flat], dtype=bool).reshape(k.shape)
            out = []
            for v in flat:
                v = elem(v)
                if isinstance(v, Sym) and v.sort == 'R':
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
                out.append(v.__index__())
            return np.array(out, dtype=int).reshape(k.shape)
        if isinstance(k, np.ndarray):
            return np.asarray(k)
        return k

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, self._ix(k))
        return r

    def __setitem__(self, k, v):
        if self.dtype == object:
            k = self._ix(k)
            if isinstance(v, np.ndarray):
                if self.ld is not None or v.dtype != object:
                    v = np.frompyfunc(lambda t: coerce_to(t, self.ld), 1, 1)(np.asarray(v))
                if isinstance(v, np.ndarray):
                    v = v.view(np.ndarray)
            elif isinstance(v, (list, tuple)):
                v = np.frompyfunc(lambda t: coerce_to(t, self.ld), 1, 1)(np.asarray(to_obj(v)))
            else:
                v = coerce_to(v, self.ld)
            if isinstance(v, np.ndarray) and v.size == 1 and v.ndim > 0:
                kk = k if isinstance(k, tuple) else (k,)
                if len(kk) == self.ndim and all(isinstance(i, (int, np.integer)) and not isinstance(i, bool) for i in kk):
                    v = v.ravel()[0]
            np.ndarray.__setitem__(self, k, v)
        else:
            if has_sym(v):
                if isinstance(v, Sym):
                    v = conc(v)
                else:
                    v = np.asarray(v)
                    v = np.array([conc(t) for t in v.ravel().tolist()]).reshape(v.shape)
            np.ndarray.__setitem__(self, self._ix(k), v)

    # -- ufuncs -------------------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [np.asarray(i) if isinstance(i, SymArray) else i for i in inputs]
        where = kw.pop('where', True)
        anyobj = any((isinstance(i, np.ndarray) and i.dtype == object) or isinstance(i, Sym) or
                     (isinstance(i, list) and has_sym(i)) for i in ins) or \
            (out is not None and any(isinstance(o, np.ndarray) and o.dtype == object for o in out))
        if not anyobj:
            if out is not None:
                kw['out'] = tuple(np.asarray(o) if isinstance(o, SymArray) else o for o in out)
            if where is not True:
                kw['where'] = where
            r = getattr(ufunc, method)(*ins, **kw)
            return wrap(r) if out is None else (out[0] if len(out) == 1 else out)
        kw.pop('dtype', None)
        kw.pop('casting', None)
        kw.pop('initial', None) if kw.get('initial', 0) in (0, None) or kw.get('initial') is np._NoValue else None
        if ufunc.__name__ == 'matmul':
            r = np.matmul(*[i if i.dtype == object else i.astype(object) for i in map(np.asarray, ins)])
        else:
            f = UF.get(ufunc.__name__)
            if f is None:
                raise Unsupported('ufunc ' + ufunc.__name__)
            pf = np.frompyfunc(f, ufunc.nin, 1)
            ins = [E.L(i) if isinstance(i, (int, float, np.number, bool, np.bool_)) else i for i in ins]
            ins = [to_obj(i) if isinstance(i, np.ndarray) else i for i in ins]
            if method == '__call__':
                if where is not True:
                    raise Unsupported('ufunc where')
                r = pf(*ins)
            elif method == 'reduce':
                a = ins[0]
                axis = kw.get('axis', 0)
                keep = kw.get('keepdims', False)
                if where is not True:
                    raise Unsupported('reduce where')
                r = reduce_obj(ufunc.__name__, pf, a, axis, keep)
                if 'initial' in kw and kw['initial'] is not np._NoValue and kw['initial'] is not None:
                    r = pf(r, elem(kw['initial']))
            elif method == 'accumulate':
                r = pf.accumulate(ins[0], kw.get('axis', 0), dtype=object)
            elif method == 'outer':
                r = pf.outer(*ins)
            elif method == 'at':
                a, ix, v = inputs
                v = np.broadcast_to(np.asarray(v), np.asarray(ix).shape)
                for i, w in zip(np.asarray(ix).ravel(), v.ravel()):
                    a[i] = f(elem(a[i]), elem(w))
                return None
            else:
                raise Unsupported('ufunc method ' + method)
        if out is not None:
            o = out[0]
            if not (isinstance(o, np.ndarray) and o.dtype == object):
                o[...] = np.array([conc(t) for t in np.asarray(r).ravel().tolist()]).reshape(np.shape(r))
                return o
            if isinstance(o, SymArray):
                o[...] = r
            else:
                o[...] = r
            return o
        return wrap(r)

    def astype(self, t, *a, **k):
        if k.get('copy') is False and same_type(self, t):
            return self
        return astype(self, t)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return NPX.max(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return NPX.min(self, axis=axis, keepdims=keepdims)

    def argmax(self, axis=None, **k):
        return NPX.argmax(self, axis=axis)

    def argmin(self, axis=None, **k):
        return NPX.argmin(self, axis=axis)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return NPX.sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return NPX.prod(self, axis=axis, keepdims=keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return NPX.cumsum(self, axis)

    def any(self, axis=None, **k):
        return NPX.any(self, axis=axis)

    def all(self, axis=None, **k):
        return NPX.all(self, axis=axis)

    def mean(self, axis=None, dtype=None, keepdims=False, **k):
        return NPX.mean(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, ddof=0, **k):
        return NPX.std(self, axis=axis, ddof=ddof)

    def var(self, axis=None, ddof=0, **k):
        return NPX.var(self, axis=axis, ddof=ddof)

    def dot(self, b, out=None):
        return NPX.dot(self, b)

    def round(self, decimals=0, out=None):
        return NPX.round(self, decimals)

    def nonzero(self):
        return NPX.nonzero(self)

    def tolist(self):
        return np.ndarray.tolist(self)

    def copy(self, order='C'):
        r = np.ndarray.copy(self)
        return r

    def fill(self, v):
        self[...] = v

    def repeat(self, n, axis=None):
        return wrap(np.repeat(np.asarray(self), _i(n), axis=axis))

    def __bool__(self):
        if self.size == 1:
            return bool(self.ravel().tolist()[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __index__(self):
        if self.ndim == 0:
            return elem(self.item()).__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __contains__(self, v):
        return bool(NPX.any(self == v))

    def __reduce__(self):
        return np.ndarray.__reduce__(self)

    def __deepcopy__(self, memo):
        return self.copy()


def _i(x):
    if isinstance(x, Sym):
        return x.__index__()
    if isinstance(x, np.ndarray):
        return SymArray._ix(x)
    if isinstance(x, (tuple, list)):
        return type(x)(_i(t) for t in x)
    return x


def conc(v):
    """Concretise a scalar Sym (forking on integers/booleans)."""
    if not isinstance(v, Sym):
        return v
    if v.sort == 'B':
        return bool(v)
    if v.op == 'const':
        return int(v.data) if v.sort == 'I' else float(v.data)
    if v.op == 'const_inf':
        return float(v.data)
    if v.sort == 'I':
        return v.__index__()
    raise Unsupported('a symbolic real is stored in a native array')


def to_obj(a):
    """Array-like -> plain object ndarray with Sym elements."""
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            flat = a.ravel().tolist() if a.size < 4 else None
            b = np.asarray(a)
            if b.size and all(isinstance(v, Sym) for v in b.ravel().tolist()):
                return b
            r = np.empty(b.shape, dtype=object)
            for i, v in enumerate(b.ravel().tolist()):
                r.reshape(-1)[i] = elem(v)
            return r
        if a.dtype.kind in 'biuf':
            r = np.empty(a.shape, dtype=object)
            rf = r.reshape(-1)
            for i, v in enumerate(np.asarray(a).ravel().tolist()):
                rf[i] = E.L(v)
            return r
        return np.asarray(a)
    if isinstance(a, Sym):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    if isinstance(a, (list, tuple, range)) or hasattr(a, '__iter__'):
        parts = [to_obj(x) if not isinstance(x, Sym) else x for x in a]
        if any(isinstance(p, np.ndarray) and p.ndim > 0 for p in parts):
            shp = None
            for p in parts:
                s = p.shape if isinstance(p, np.ndarray) else ()
                if shp is None:
                    shp = s
                elif s != shp:
                    raise ValueError('setting an array element with a sequence. The requested array has an '
                                     'inhomogeneous shape')
            return np.stack([np.asarray(p) for p in parts]) if parts else np.empty((0,), dtype=object)
        r = np.empty(len(parts), dtype=object)
        for i, p in enumerate(parts):
            r[i] = p.item() if isinstance(p, np.ndarray) else p
        return r
    v = elem(a)
    r = np.empty((), dtype=object)
    r[()] = v
    return r


def wrap(r, ld=None):
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    if isinstance(r, np.ndarray):
        if r.ndim == 0 and r.dtype == object:
            return r.item()
        r = r.view(SymArray)
        if r.dtype == object:
            r.ld = ld
        return r
    return r


def reduce_obj(name, pf, a, axis, keep=False):
    if axis is None:
        axis = tuple(range(a.ndim))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    axis = tuple(sorted(x % a.ndim for x in axis)) if a.ndim else ()
    if a.ndim == 0:
        return a.item()
    # move reduced axes last, flatten
    rest = [i for i in range(a.ndim) if i not in axis]
    b = a.transpose(rest + list(axis))
    shp = tuple(a.shape[i] for i in rest)
    b = b.reshape(shp + (-1,)) if a.size else np.empty(shp + (0,), dtype=object)
    out = np.empty(shp, dtype=object)
    for ix in np.ndindex(*shp):
        v = b[ix].tolist()
        out[ix] = RED[name](v, pf)
    if keep:
        out = out.reshape(tuple(1 if i in axis else a.shape[i] for i in range(a.ndim)))
    elif not rest:
        return out[()]
    return out


def _sumlist(v):
    if not v:
        return E.ZERO
    # balanced tree keeps node construction cheap
    v = [E.num(E.L(x)) for x in v]
    while len(v) > 1:
        v = [E.add(v[i], v[i + 1]) if i + 1 < len(v) else v[i] for i in range(0, len(v), 2)]
    return v[0]


def _gen(unit):
    def f(v, pf):
        if not v:
            if unit is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            return E.L(unit)
        r = v[0]
        for x in v[1:]:
            r = pf(r, x)
        return r
    return f


RED = {
    'add': lambda v, pf: _sumlist(v),
    'multiply': _gen(1), 'maximum': lambda v, pf: E.smax(v), 'minimum': lambda v, pf: E.smin(v),
    'logical_and': lambda v, pf: E.band(*v) if v else E.TRUE,
    'logical_or': lambda v, pf: E.bor(*v) if v else E.FALSE,
    'bitwise_and': _gen(True), 'bitwise_or': _gen(False), 'subtract': _gen(None),
    'logaddexp': _gen(None), 'bitwise_xor': _gen(False), 'fmax': lambda v, pf: E.smax(v),
    'fmin': lambda v, pf: E.smin(v),
}


def _isnan(x):
    x = E.L(x)
    return E.L(x.op == 'const_inf' and x.data == 'nan')


def _isinf(x):
    x = E.L(x)
    return E.L(x.op == 'const_inf' and x.data != 'nan')


def _sign(x):
    x = E.L(x)
    return E.ite(E.lt(E.ZERO, x), E.cst(1), E.ite(E.lt(x, E.ZERO), E.cst(-1), E.cst(0)))


def _m(name):
    return lambda x: getattr(E.L(x), name)()


def _eqf(a, b):
    a_, b_ = E.lift(a), E.lift(b)
    if a_ is None or b_ is None:
        return a == b
    return E.eq(a_, b_)


def _order(f, a, b):
    if hasattr(a, '_cmp'):              # a draw answering comparisons itself (props/measure.py)
        return E.L(bool(a < b))
    if hasattr(b, '_cmp'):
        return E.L(bool(b > a))
    return f(E.L(a), E.L(b))


UF = {
    'add': lambda a, b: E.L(a) + b, 'subtract': lambda a, b: E.L(a) - b, 'multiply': lambda a, b: E.L(a) * b,
    'true_divide': lambda a, b: E.L(a) / b, 'divide': lambda a, b: E.L(a) / b,
    'floor_divide': lambda a, b: E.L(a) // b,
    'remainder': lambda a, b: E.L(a) % b, 'mod': lambda a, b: E.L(a) % b, 'power': lambda a, b: E.L(a) ** b,
    'float_power': lambda a, b: E.L(a) ** b,
    'negative': lambda a: -E.L(a), 'positive': lambda a: a, 'absolute': lambda a: abs(E.L(a)),
    'fabs': lambda a: abs(E.L(a)),
    'exp': _m('exp'), 'log': _m('log'), 'log2': _m('log2'), 'log10': _m('log10'), 'log1p': _m('log1p'),
    'expm1': _m('expm1'), 'exp2': _m('exp2'), 'sqrt': _m('sqrt'), 'square': _m('square'), 'tanh': _m('tanh'),
    'cosh': _m('cosh'), 'sinh': _m('sinh'), 'arctanh': _m('arctanh'), 'sin': _m('sin'), 'cos': _m('cos'),
    'rint': _m('rint'), 'floor': lambda a: E.toreal(E.floor(E.L(a))), 'ceil': lambda a: E.toreal(_m('ceil')(a)),
    'trunc': lambda a: E.toreal(E.trunc(E.L(a))),
    'reciprocal': lambda a: 1 / E.L(a), 'conjugate': lambda a: a, 'sign': _sign,
    'less': lambda a, b: _order(E.lt, a, b), 'less_equal': lambda a, b: _order(E.le, a, b),
    'greater': lambda a, b: _order(E.lt, b, a), 'greater_equal': lambda a, b: _order(E.le, b, a),
    'equal': _eqf, 'not_equal': lambda a, b: E.bnot(E.L(_eqf(a, b))),
    'logical_and': lambda a, b: E.band(E.L(a), E.L(b)), 'logical_or': lambda a, b: E.bor(E.L(a), E.L(b)),
    'logical_not': lambda a: E.bnot(E.tobool(E.L(a))),
    'logical_xor': lambda a, b: E.bnot(E.eq(E.tobool(E.L(a)), E.tobool(E.L(b)))),
    'bitwise_and': lambda a, b: E.L(a) & b, 'bitwise_or': lambda a, b: E.L(a) | b,
    'bitwise_xor': lambda a, b: E.L(a) ^ b, 'invert': lambda a: ~E.L(a),
    'maximum': lambda a, b: E.smax([a, b]), 'minimum': lambda a, b: E.smin([a, b]),
    'fmax': lambda a, b: E.smax([a, b]), 'fmin': lambda a, b: E.smin([a, b]),
    'isnan': _isnan, 'isinf': _isinf, 'isfinite': lambda x: E.L(E.L(x).op != 'const_inf'),
    'logaddexp': lambda a, b: E.log(E.exp(E.L(a)) + E.exp(E.L(b))),
    'left_shift': lambda a, b: E.L(a) << b, 'right_shift': lambda a, b: E.L(a) >> b,
    'heaviside': lambda a, b: E.ite(E.lt(E.L(a), E.ZERO), E.ZERO, E.ite(E.eq(E.L(a), E.ZERO), E.L(b), E.ONE)),
    'divmod': lambda a, b: divmod(E.L(a), E.L(b)),
}


def kind_of(t):
    if t is None:
        return None
    if isinstance(t, type) and getattr(t, '_real_type', None) is not None:
        t = t._real_type
    if t is Sym:
        return None
    return np.dtype(t).kind


def same_type(a, t):
    """Does astype(t, copy=False) return the array itself? (declared integer widths of symbolic arrays: the default one)"""
    if isinstance(t, type) and getattr(t, '_real_type', None) is not None:
        t = t._real_type
    if t is Sym:
        return True
    if a.dtype != object:
        return np.dtype(t) == a.dtype
    return np.dtype(t) == {'i': np.dtype(int), 'f': np.dtype(float), 'b': np.dtype(bool)}.get(getattr(a, 'ld', None))


def astype(a, t):
    k = kind_of(t)
    if isinstance(t, type) and getattr(t, '_real_type', None) is not None:
        t = t._real_type
    if a.dtype != object:
        return wrap(np.asarray(a).astype(t))
    if k in 'iu':
        ld = 'i'
    elif k == 'f':
        ld = 'f'
    elif k == 'b':
        ld = 'b'
    elif k == 'O':
        ld = None
    else:
        return wrap(np.array([conc(v) for v in a.ravel().tolist()]).reshape(a.shape).astype(t))
    r = np.empty(a.shape, dtype=object)
    rf = r.reshape(-1)
    for i, v in enumerate(np.asarray(a).ravel().tolist()):
        if isinstance(v, str):
            v = int(v) if ld == 'i' else float(v)
        rf[i] = coerce_to(v, ld)
    return wrap(r, ld)


class SymUnique(SymArray):
    """Result of np.unique on symbolic data, usable as a set; anything else concretises."""
    pass


class SymSet:
    def __init__(self, items):
        self.items = list(items)

    def _le(self, other):
        o = other.items if isinstance(other, SymSet) else list(other)
        return E.band(*[E.bor(*[E.eq(E.L(a), E.L(b)) for b in o]) for a in self.items]) if self.items else E.TRUE

    def __le__(self, o):
        return bool(self._le(o))
    issubset = __le__

    def __ge__(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return bool(o._le(self))

    def __eq__(self, o):
        return self <= o and self >= o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(frozenset(self._c()))

    def _c(self):
        return {conc(x) for x in self.items}

    def __iter__(self):
        return iter(self._c())

    def __len__(self):
        return len(self._c())

    def __contains__(self, v):
        return bool(E.bor(*[E.eq(E.L(a), E.L(v)) for a in self.items]))

    def __sub__(self, o):
        return frozenset(self._c()) - frozenset(o)

    def __and__(self, o):
        return frozenset(self._c()) & frozenset(o)

    def __or__(self, o):
        return frozenset(self._c()) | frozenset(o)


def simplify_args(x):
    """Convert lifted-world types in arguments for a real numpy call."""
    if isinstance(x, type) and getattr(x, '_real_type', None) is not None:
        return x._real_type
    if isinstance(x, Sym):
        return x
    if type(x).__name__ == 'DType':
        return x.dtype
    if isinstance(x, list):
        return [simplify_args(t) for t in x]
    if type(x) is tuple:
        return tuple(simplify_args(t) for t in x)
    return x


def native_if_const(a):
    """Object array of constants -> native array (else unchanged)."""
    if isinstance(a, Sym):
        if a.op in ('const', 'bconst', 'const_inf'):
            return conc(a)
        return a
    if isinstance(a, np.ndarray) and a.dtype == object:
        fl = a.ravel().tolist()
        if all(not isinstance(v, Sym) or v.op in ('const', 'bconst', 'const_inf') for v in fl):
            try:
                r = np.array([conc(v) for v in fl])
            except Exception:
                return a
            if r.dtype == object:
                return a
            if len(fl) == 0:
                r = r.astype({'i': int, 'b': bool}.get(getattr(a, 'ld', None), float))
            elif getattr(a, 'ld', None) == 'f':
                r = r.astype(float)
            return r.reshape(a.shape)
        return a
    if isinstance(a, list):
        return [native_if_const(t) for t in a]
    if type(a) is tuple:
        return tuple(native_if_const(t) for t in a)
    return a


class Overrides:
    """Symbolic implementations; everything else falls through to real numpy."""

    # -- construction ---------------------------------------------------------------------
    def _mk(self, shape, dtype, val):
        shape = _i(shape)
        k = kind_of(dtype) if dtype is not None else 'f'
        if k in 'SUMm' or k == 'V':
            return wrap(np.zeros(shape, dtype=dtype))
        ld = {'i': 'i', 'u': 'i', 'f': 'f', 'b': 'b', 'O': None, 'c': None}[k]
        r = np.empty(shape, dtype=object)
        if ld == 'f':
            v = E.cst(val, 'R')
        elif ld == 'b':
            v = E.L(bool(val))
        else:
            v = E.cst(val)
        r.fill(v)
        if r.ndim == 0:
            r = r.reshape(())
            r = r.view(SymArray)
            r.ld = ld
            return r
        return wrap(r, ld)

    def zeros(self, shape, dtype=None, order='C'):
        return self._mk(shape, dtype, 0)

    def ones(self, shape, dtype=None, order='C'):
        return self._mk(shape, dtype, 1)

    def empty(self, shape, dtype=None, order='C'):
        return self._mk(shape, dtype, 0)

    def full(self, shape, fill_value, dtype=None, order='C'):
        v = fill_value
        if dtype is None:
            e = E.lift(v)
            dtype = bool if e is not None and e.sort == 'B' else int if e is not None and e.sort == 'I' else float
        r = self._mk(shape, dtype, 0)
        r[...] = v
        return r

    def _like(self, a, dtype, val, shape=None):
        a_ = a if isinstance(a, np.ndarray) else self.array(a)
        if dtype is None:
            if a_.dtype == object:
                ld = getattr(a_, 'ld', None) or guess_ld(a_)
                dtype = {'i': int, 'f': float, 'b': bool, None: object}[ld]
            else:
                dtype = a_.dtype
        return self._mk(a_.shape if shape is None else shape, dtype, val)

    def zeros_like(self, a, dtype=None, **k):
        return self._like(a, dtype, 0)

    def ones_like(self, a, dtype=None, **k):
        return self._like(a, dtype, 1)

    def empty_like(self, a, dtype=None, **k):
        return self._like(a, dtype, 0)

    def full_like(self, a, fill_value, dtype=None, **k):
        r = self._like(a, dtype, 0)
        r[...] = fill_value
        return r

    def eye(self, n, M=None, k=0, dtype=float):
        r = self._mk((n, n if M is None else M), dtype, 0)
        nat = np.eye(n, M, k)
        for i, j in zip(*np.nonzero(nat)):
            r[i, j] = 1
        return r

    def identity(self, n, dtype=float):
        return self.eye(n, dtype=dtype)

    def array(self, a, dtype=None, copy=True, ndmin=0, **k):
        dtype = simplify_args(dtype)
        if isinstance(a, SymSet):
            a = list(a)
        if isinstance(a, np.ndarray):
            r = wrap(np.array(a))
            if r.dtype == object if isinstance(r, np.ndarray) else False:
                r.ld = getattr(a, 'ld', None)
        elif has_sym(a) or (isinstance(a, (list, tuple)) and any(
                isinstance(x, np.ndarray) and x.dtype == object for x in a)):
            if isinstance(a, Sym):
                z = np.empty((), dtype=object)
                z[()] = a
                z = z.view(SymArray)
                if dtype is not None:
                    return astype(z, dtype)
                return z
            try:
                r = wrap(to_obj(a))
            except ValueError:
                if dtype is object:
                    r0 = np.empty(len(a), dtype=object)
                    for i, x in enumerate(a):
                        r0[i] = x
                    return wrap(r0)
                raise
            r.ld = guess_ld(r)
        else:
            if hasattr(a, '__iter__') and not isinstance(a, (list, tuple, str, dict, np.ndarray, range)):
                a = a if not hasattr(a, '__next__') else a
            r = wrap(np.array(a, dtype=dtype) if dtype is not None else np.array(a))
            return r if not isinstance(r, np.ndarray) or not ndmin else wrap(np.array(r, ndmin=ndmin))
        if dtype is not None and isinstance(r, np.ndarray):
            r = astype(r, dtype)
        if ndmin and isinstance(r, np.ndarray) and r.ndim < ndmin:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        return r

    def asarray(self, a, dtype=None, **k):
        if isinstance(a, np.ndarray):
            if dtype is None:
                return a if isinstance(a, SymArray) else wrap(a)
            if a.dtype == object:
                return astype(wrap(a), dtype) if _ldk(a) != kind_of(dtype) else a
        return self.array(a, dtype=dtype)

    asanyarray = asarray

    def ascontiguousarray(self, a, dtype=None, **k):
        a = self.asarray(a, dtype)
        if a.ndim and not a.flags.c_contiguous:
            ld, a = getattr(a, 'ld', None), wrap(np.array(a, order='C'))
            a.ld = ld
        return a

    def copy(self, a, **k):
        return self.array(a)

    def fromiter(self, it, dtype, count=-1):
        return self.array(list(it), dtype=dtype)

    # -- reductions -----------------------------------------------------------------------
    def _red(self, name, a, axis=None, keepdims=False):
        a = a if isinstance(a, np.ndarray) else self.array(a)
        if a.dtype != object:
            return wrap(getattr(np, {'add': 'sum', 'multiply': 'prod', 'maximum': 'max', 'minimum': 'min',
                                     'logical_and': 'all', 'logical_or': 'any'}[name])(np.asarray(a), axis=axis,
                                                                                      keepdims=keepdims))
        return wrap(reduce_obj(name, np.frompyfunc(UF[name], 2, 1), to_obj(a), _i(axis), keepdims))

    def sum(self, a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if isinstance(a, types.GeneratorType):
            a = list(a)
        return self._red('add', a, axis, keepdims)

    def prod(self, a, axis=None, keepdims=False, **k):
        return self._red('multiply', a, axis, keepdims)
    product = prod

    def max(self, a, axis=None, out=None, keepdims=False, **k):
        return self._red('maximum', a, axis, keepdims)
    amax = max

    def min(self, a, axis=None, out=None, keepdims=False, **k):
        return self._red('minimum', a, axis, keepdims)
    amin = min
    nanmax = max
    nanmin = min

    def all(self, a, axis=None, **k):
        return self._red('logical_and', a, axis)
    alltrue = all

    def any(self, a, axis=None, **k):
        return self._red('logical_or', a, axis)

    def nansum(self, a, axis=None, **k):
        return self.sum(a, axis)

    def mean(self, a, axis=None, dtype=None, out=None, keepdims=False, **k):
        a = a if isinstance(a, np.ndarray) else self.array(a)
        a = to_obj(a).view(SymArray)
        n = a.size if axis is None else np.prod([a.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))])
        s = self.sum(a, axis=axis, keepdims=keepdims)
        if n == 0:
            return s * float('nan') if not isinstance(s, Sym) else E.lift(float('nan'))
        return s / int(n)

    def average(self, a, axis=None, weights=None, **k):
        if weights is None:
            return self.mean(a, axis)
        a, w = self.asarray(a), self.asarray(weights)
        if a.shape != w.shape:
            if axis is None or w.ndim != 1:
                raise TypeError('Axis must be specified when shapes of a and weights differ.')
            shp = [1] * a.ndim
            shp[axis] = -1
            w = w.reshape(shp)
        s = self.sum(a * w, axis)
        wb = wrap(np.broadcast_to(np.asarray(w), a.shape).copy())
        return s / self.sum(wb, axis)

    def var(self, a, axis=None, ddof=0, **k):
        a = a if isinstance(a, np.ndarray) else self.array(a)
        m = self.mean(a, axis, keepdims=True)
        d = a - m
        n = a.size if axis is None else a.shape[axis]
        return self.sum(d * d, axis) / (n - ddof)

    def std(self, a, axis=None, ddof=0, **k):
        return self.sqrt(self.var(a, axis, ddof))

    def cumsum(self, a, axis=None, **k):
        a = self.asarray(a)
        if a.dtype != object:
            return wrap(np.cumsum(np.asarray(a), axis))
        if axis is None:
            a, axis = a.reshape(-1), 0
        return wrap(np.frompyfunc(UF['add'], 2, 1).accumulate(to_obj(a), axis, dtype=object))

    def _arg(self, a, axis, sgn):
        a = self.asarray(a)
        if a.dtype != object:
            return wrap((np.argmax if sgn > 0 else np.argmin)(np.asarray(a), axis=axis))
        if axis is None:
            v = to_obj(a).ravel().tolist()
            if not v:
                raise ValueError('attempt to get argmax of an empty sequence')
            # fork once per answer instead of once per comparison
            d = [E.lift(x) for x in v]
            lt, le = (E.lt, E.le) if sgn > 0 else (lambda a, b: E.lt(b, a), lambda a, b: E.le(b, a))
            if len(v) > 3 and all(x is not None for x in d):
                for k in range(len(v) - 1):
                    if any(x is d[k] for x in d[:k]):
                        continue
                    c = E.band(*([lt(x, d[k]) for x in d[:k]] + [le(x, d[k]) for x in d[k + 1:]]))
                    if bool(c):
                        return k
                return len(v) - 1
            best = 0
            for i in range(1, len(v)):
                c = E.lt(v[best], v[i]) if sgn > 0 else E.lt(v[i], v[best])
                if bool(c):
                    best = i
            return best
        return wrap(np.array([self._arg(x, None, sgn) for x in np.moveaxis(np.asarray(a), axis, -1).reshape(
            -1, a.shape[axis])]).reshape(np.delete(a.shape, axis)))

    def argmax(self, a, axis=None, **k):
        return self._arg(a, axis, 1)

    def argmin(self, a, axis=None, **k):
        return self._arg(a, axis, -1)

    # -- linear algebra -------------------------------------------------------------------
    def dot(self, a, b, out=None):
        a, b = self.asarray(a), self.asarray(b)
        if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray) or a.ndim == 0 or b.ndim == 0:
            return a * b
        if a.dtype != object and b.dtype != object:
            return wrap(np.dot(np.asarray(a), np.asarray(b)))
        A, B = to_obj(a), to_obj(b)
        if A.shape[-1] != B.shape[-2 if B.ndim > 1 else 0]:
            raise ValueError('shapes %s and %s not aligned' % (A.shape, B.shape))
        Bm = np.moveaxis(B, -2, 0) if B.ndim > 1 else B
        bs = Bm.shape[1:]
        Bf = Bm.reshape(Bm.shape[0], -1)
        Af = A.reshape(-1, A.shape[-1])
        out = np.empty((Af.shape[0], Bf.shape[1]), dtype=object)
        for i in range(Af.shape[0]):
            for j in range(Bf.shape[1]):
                out[i, j] = _sumlist([E.mul(x, y) for x, y in zip(Af[i].tolist(), Bf[:, j].tolist())])
        r = out.reshape(A.shape[:-1] + bs)
        return wrap(r) if r.ndim else r.item()

    def inner(self, a, b):
        return self.dot(a, self.asarray(b).T)

    def vdot(self, a, b):
        return self.dot(self.ravel(a), self.ravel(b))

    def matmul(self, a, b, **k):
        return self.dot(a, b)

    def tensordot(self, a, b, axes=2):
        return wrap(np.tensordot(to_obj(self.asarray(a)), to_obj(self.asarray(b)), axes=axes))

    def einsum(self, s, *ops, **k):
        return wrap(np.einsum(s, *[to_obj(self.asarray(o)) for o in ops]))

    def outer(self, a, b, **k):
        a, b = self.ravel(a), self.ravel(b)
        return a[:, None] * b[None, :]

    def ravel(self, a, order='C'):
        return self.asarray(a).reshape(-1)

    # -- comparison -----------------------------------------------------------------------
    def array_equal(self, a, b, **k):
        a, b = self.asarray(a), self.asarray(b)
        if a.shape != b.shape:
            return False
        return bool(self.all(a == b))

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        a_, b_ = native_if_const(a), native_if_const(b)
        if not has_sym(a_) and not has_sym(b_):
            return wrap(np.isclose(a_, b_, rtol=rtol, atol=atol))
        f = np.frompyfunc(lambda x, y: E.le(abs(E.L(x) - E.L(y)), E.L(atol) + E.L(rtol) * abs(E.L(y))), 2, 1)
        return wrap(f(to_obj(a), to_obj(b)))

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        r = self.isclose(a, b, rtol, atol)
        return self.all(r) if isinstance(r, np.ndarray) else r

    def where(self, c, x=None, y=None):
        if x is None:
            return self.nonzero(c)
        if not has_sym(c) and not has_sym(x) and not has_sym(y):
            return wrap(np.where(native_if_const(c), native_if_const(x), native_if_const(y)))
        f = np.frompyfunc(lambda p, u, v: E.ite(E.tobool(E.L(p)), E.L(u), E.L(v)), 3, 1)
        return wrap(f(to_obj(c), to_obj(x), to_obj(y)))

    def nonzero(self, a):
        a = self.asarray(a)
        m = np.array([bool(v) for v in a.ravel().tolist()], dtype=bool).reshape(a.shape)
        return wrap(np.nonzero(m))

    def argwhere(self, a):
        return wrap(np.argwhere(self._b(a)))

    def flatnonzero(self, a):
        return wrap(np.flatnonzero(self._b(a)))

    def count_nonzero(self, a, axis=None, **k):
        a = self.asarray(a)
        return self.sum(astype(a, bool) if a.dtype == object else np.asarray(a) != 0, axis)

    def _b(self, a):
        a = self.asarray(a)
        return np.array([bool(v) for v in a.ravel().tolist()], dtype=bool).reshape(a.shape)

    def clip(self, a, lo=None, hi=None, **k):
        r = a
        if lo is not None:
            r = self.maximum(r, lo)
        if hi is not None:
            r = self.minimum(r, hi)
        return r

    def unique(self, a, **k):
        a = self.asarray(a)
        if has_sym(native_if_const(a)):
            if not k:
                r = a.reshape(-1).copy().view(SymUnique)
                return r
            a = wrap(np.array([conc(v) for v in a.ravel().tolist()]).reshape(a.shape))
        return wrap(np.unique(native_if_const(a), **k))

    def bincount(self, x, weights=None, minlength=0):
        x = SymArray._ix(self.asarray(x))
        if weights is None or not has_sym(weights):
            return wrap(np.bincount(np.asarray(x), native_if_const(weights) if weights is not None else None,
                                    minlength))
        n = max(int(x.max()) + 1 if len(x) else 0, minlength)
        out = self._mk(n, float, 0)
        for i, w in zip(x.tolist(), self.asarray(weights).tolist()):
            out[i] = out[i] + w
        return out

    def sort(self, a, axis=-1, **k):
        a = self.asarray(a)
        n = native_if_const(a)
        if not has_sym(n):
            return wrap(np.sort(n, axis=axis))
        if axis is None:
            a, axis = a.reshape(-1), 0
        b = np.moveaxis(np.asarray(a).copy(), axis, -1)
        for ix in np.ndindex(*b.shape[:-1]):
            b[ix] = to_obj(sorted(b[ix].tolist(), key=functools.cmp_to_key(
                lambda p, q: -1 if bool(E.lt(E.L(p), E.L(q))) else (1 if bool(E.lt(E.L(q), E.L(p))) else 0))))
        return wrap(np.moveaxis(b, -1, axis))

    def argsort(self, a, axis=-1, **k):
        a = self.asarray(a)
        n = native_if_const(a)
        if not has_sym(n):
            return wrap(np.argsort(n, axis=axis, kind=k.get('kind')))
        if a.ndim != 1:
            raise Unsupported('argsort nd')
        v = a.tolist()
        return wrap(np.array(sorted(range(len(v)), key=functools.cmp_to_key(
            lambda p, q: -1 if bool(E.lt(E.L(v[p]), E.L(v[q]))) else (1 if bool(E.lt(E.L(v[q]), E.L(v[p]))) else 0)
        )), dtype=int))

    def round(self, a, decimals=0, **k):
        if isinstance(a, Sym):
            return round(a, decimals)
        n = native_if_const(a)
        if not has_sym(n):
            return wrap(np.round(n, decimals))
        s = 10**decimals
        return wrap(np.frompyfunc(lambda x: E.rint(E.L(x) * s) / s, 1, 1)(to_obj(a)))
    around = round
    round_ = round

    def nan_to_num(self, a, **k):
        return a

    def isscalar(self, a):
        return isinstance(a, Sym) or np.isscalar(a)

    def ndim(self, a):
        return 0 if isinstance(a, Sym) else np.ndim(a)

    def shape(self, a):
        return () if isinstance(a, Sym) else np.shape(a)

    def size(self, a, axis=None):
        return 1 if isinstance(a, Sym) else np.size(a, axis)

    def vectorize(self, f, **k):
        g = np.frompyfunc(f, f.__code__.co_argcount, 1)
        return lambda *a: wrap(g(*[to_obj(x) for x in a]))

    def frompyfunc(self, f, nin, nout):
        g = np.frompyfunc(f, nin, nout)
        return lambda *a: wrap(g(*a))

    def seterr(self, **k):
        return {}

    def binary_repr(self, n, width=None):
        return np.binary_repr(_i(n), width)

    def ix_(self, *a):
        return np.ix_(*[SymArray._ix(x) if isinstance(x, np.ndarray) else x for x in a])

    def delete(self, a, obj, axis=None):
        a = self.asarray(a)
        r = wrap(np.delete(np.asarray(a), SymArray._ix(obj), axis=axis))
        r.ld = a.ld
        return r

    def insert(self, a, obj, values, axis=None):
        a = self.asarray(a)
        obj = SymArray._ix(obj)
        if a.dtype != object and not has_sym(values):
            return wrap(np.insert(np.asarray(a), obj, native_if_const(values), axis=axis))
        ld = getattr(a, 'ld', None) or guess_ld(a)
        v = to_obj(values)
        v = np.frompyfunc(lambda t: coerce_to(t, ld), 1, 1)(v)
        r = wrap(np.insert(to_obj(a), obj, v, axis=axis))
        r.ld = ld
        return r

    def concatenate(self, arrs, axis=0, **k):
        return self._join(np.concatenate, arrs, axis=axis)

    def _join(self, f, arrs, **k):
        arrs = [self.asarray(a) for a in arrs]
        if any(a.dtype == object for a in arrs):
            lds = {(getattr(a, 'ld', None) or guess_ld(a)) if a.dtype == object else
                   {'i': 'i', 'u': 'i', 'b': 'b', 'f': 'f'}.get(a.dtype.kind) for a in arrs}
            r = f([to_obj(a) for a in arrs], **k)
            ld = 'f' if 'f' in lds else ('i' if lds <= {'i', 'b'} and 'i' in lds else ('b' if lds == {'b'} else None))
            return wrap(r, ld)
        return wrap(f([np.asarray(a) for a in arrs], **k))

    def vstack(self, arrs, **k):
        return self._join(np.vstack, list(arrs))

    def hstack(self, arrs, **k):
        return self._join(np.hstack, list(arrs))

    def stack(self, arrs, axis=0, **k):
        return self._join(np.stack, list(arrs), axis=axis)

    def column_stack(self, arrs):
        return self._join(np.column_stack, list(arrs))

    def append(self, a, v, axis=None):
        if axis is None:
            return self.concatenate((self.ravel(a), self.ravel(self.asarray(v))))
        return self.concatenate((a, v), axis=axis)

    def trace(self, a, **k):
        return self.sum(self.asarray(a).diagonal())

    def pad(self, *a, **k):
        return wrap(np.pad(*a, **k))

    def fill_diagonal(self, a, v, **k):
        n = min(a.shape)
        v = list(v) if hasattr(v, '__iter__') else [v] * n
        for i in range(n):
            a[i, i] = v[i]

    def maximum(self, a, b, **k):
        return self._uf(np.maximum, a, b)

    def minimum(self, a, b, **k):
        return self._uf(np.minimum, a, b)

    exact_logs = False      # set by harnesses: exp/log of concrete numbers stay exact symbols

    def _uf(self, uf, *ins, **kw):
        ins = [simplify_args(i) for i in ins]
        if self.exact_logs and uf.__name__ in ('log', 'exp') and not kw and not has_sym(list(ins)):
            if np.ndim(ins[0]):
                return wrap(to_obj(np.frompyfunc(lambda t: UF[uf.__name__](E.L(t)), 1, 1)(np.asarray(ins[0], dtype=object))))
            return UF[uf.__name__](E.L(ins[0]))
        if all(isinstance(i, (Sym, int, float, bool, np.number, np.bool_)) for i in ins):
            if not any(isinstance(i, Sym) for i in ins):
                # native scalars; keep exact zero/one through numpy
                return uf(*ins)
            if kw.get('out') is not None:
                raise Unsupported('scalar ufunc out')
            f = UF.get(uf.__name__)
            if f is None:
                raise Unsupported('ufunc ' + uf.__name__)
            return f(*ins)
        ins = [self.array(i) if isinstance(i, (list, tuple)) else i for i in ins]
        ins = [i.view(SymArray) if isinstance(i, np.ndarray) and not isinstance(i, SymArray) else i for i in ins]
        return wrap(uf(*ins, **kw))


def _ldk(a):
    return getattr(a, 'ld', None) or guess_ld(a)


def guess_ld(a):
    if a.dtype != object:
        return None
    s = set()
    for v in a.ravel().tolist():
        if isinstance(v, Sym):
            s.add(v.sort)
        else:
            return None
    if not s:
        return None
    if 'R' in s:
        return 'f'
    if 'I' in s:
        return 'i'
    return 'b'


class LinalgProxy:
    def __init__(self, npx):
        self._npx = npx

    def norm(self, a, ord=None, axis=None, keepdims=False):
        a = self._npx.asarray(a)
        n = native_if_const(a)
        if not has_sym(n):
            return wrap(np.linalg.norm(n, ord, axis))
        if ord is None or ord == 2 and (a.ndim == 1 or axis is not None):
            return self._npx.sqrt(self._npx.sum(a * a, axis=axis, keepdims=keepdims))
        if ord == np.inf and a.ndim == 1:
            return self._npx.max(abs(a))
        if ord == 1 and a.ndim == 1:
            return self._npx.sum(abs(a))
        raise Unsupported('norm ord')

    def det(self, a):
        a = self._npx.asarray(a)
        n = native_if_const(a)
        if not has_sym(n):
            return np.linalg.det(n)
        A = to_obj(a)

        def d(rows, cols):
            if not rows:
                return E.ONE
            r = E.ZERO
            for k, c in enumerate(cols):
                t = E.mul(A[rows[0], c], d(rows[1:], cols[:k] + cols[k + 1:]))
                r = E.add(r, t if k % 2 == 0 else E.neg(t))
            return r
        return d(list(range(len(A))), list(range(len(A))))

    def slogdet(self, a):
        d = self.det(a)
        return _sign(E.L(d)), E.log(abs(E.L(d)))

    def inv(self, a):
        a = self._npx.asarray(a)
        n = native_if_const(a)
        if not has_sym(n):
            return wrap(np.linalg.inv(n))
        A = to_obj(a)
        m = len(A)
        det = E.L(self.det(a))
        out = np.empty((m, m), dtype=object)
        for i in range(m):
            for j in range(m):
                minor = np.delete(np.delete(A, j, 0), i, 1)
                c = E.L(self.det(minor.view(SymArray))) if m > 1 else E.ONE
                out[i, j] = (c if (i + j) % 2 == 0 else E.neg(c)) / det
        return wrap(out)

    def block_diag(self, *ms):
        ms = [np.atleast_2d(to_obj(self._npx.asarray(m))) for m in ms]
        out = np.empty((sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)), dtype=object)
        out[:] = E.cst(0, 'R')
        r = c = 0
        for m in ms:
            out[r:r + m.shape[0], c:c + m.shape[1]] = m
            r, c = r + m.shape[0], c + m.shape[1]
        return wrap(out)

    def __getattr__(self, k):
        f = getattr(np.linalg, k)

        def g(*a, **kw):
            a = native_if_const(tuple(a))
            if has_sym(list(a)):
                raise Unsupported('linalg.' + k)
            return wrap(f(*a, **kw))
        return g


class RandomProxy:
    """numpy.random: hands out engine-controlled nondeterministic generators."""

    def RandomState(self, *a, **k):
        return E.CUR.engine.rng(*a, **k)

    def default_rng(self, *a, **k):
        return E.CUR.engine.rng(*a, **k)

    def seed(self, *a, **k):
        return None

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return getattr(E.CUR.engine.rng(), k)


class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        o = Overrides()
        self.__dict__['_o'] = o
        self.__dict__['linalg'] = LinalgProxy(o)
        self.__dict__['random'] = RandomProxy()
        self.__dict__['ndarray'] = np.ndarray
        self.__dict__['_cache'] = {}

    def __getattr__(self, k):
        if k.startswith('__'):
            return getattr(np, k)
        c = self.__dict__['_cache']
        if k in c:
            return c[k]
        o = self.__dict__['_o']
        if hasattr(o, k) and not k.startswith('_'):
            r = getattr(o, k)
        else:
            r = _wrapnp(getattr(np, k), o)
        c[k] = r
        return r


class UFuncProxy:
    def __init__(self, uf, o):
        self.uf, self.o = uf, o
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        return self.o._uf(self.uf, *a, **k)

    def reduce(self, a, axis=0, **k):
        return wrap(self.uf.reduce(self.o.asarray(a), axis=axis, **k))

    def accumulate(self, a, axis=0, **k):
        return wrap(self.uf.accumulate(self.o.asarray(a), axis=axis, **k))

    def outer(self, a, b, **k):
        return wrap(self.uf.outer(self.o.asarray(a), self.o.asarray(b)))

    def at(self, a, ix, *b):
        f = UF[self.uf.__name__]
        ix = SymArray._ix(self.o.asarray(ix)) if not isinstance(ix, tuple) else ix
        if isinstance(ix, tuple):
            raise Unsupported('ufunc.at tuple')
        v = np.broadcast_to(to_obj(b[0]), np.shape(ix)) if b else None
        for n, i in enumerate(np.asarray(ix).ravel().tolist()):
            a[i] = f(elem(a[i]), v.ravel().tolist()[n]) if b else f(elem(a[i]))


def _wrapnp(f, o):
    if isinstance(f, np.ufunc):
        return UFuncProxy(f, o)
    if isinstance(f, type) or not callable(f):
        if isinstance(f, types.ModuleType):
            return f
        return f

    def g(*a, **k):
        a = tuple(simplify_args(x) for x in a)
        k = {n: simplify_args(v) for n, v in k.items()}
        ld = None
        if a and isinstance(a[0], SymArray) and a[0].dtype == object:
            ld = a[0].ld
        a = tuple((wrap(to_obj(x)) if isinstance(x, (list, tuple)) and has_sym(x) and not any(
            isinstance(t, (list, tuple, np.ndarray)) and isinstance(x, tuple) for t in x) else x) for x in a)
        r = f(*a, **k)
        r = wrap(r)
        if isinstance(r, SymArray) and r.dtype == object and r.ld is None:
            r.ld = ld
        return r
    g.__name__ = getattr(f, '__name__', 'np')
    return g


NPP = NumpyProxy()
NPX = NPP._o
# methods used internally that are plain ufuncs
for _n in ('sqrt', 'exp', 'log'):
    setattr(Overrides, _n, staticmethod(lambda x, _u=getattr(np, _n): NPX._uf(_u, x)))
