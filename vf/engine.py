"""Path exploration, property contexts (symbolic / concrete), counterexample replay, evidence."""
import json
import math
import os
import random
import subprocess
import sys
import time
import traceback
import types
import warnings
from fractions import Fraction
import numpy as np

from . import expr as E
from .expr import Sym, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class PropertyFailure(Exception):
    """Concrete-mode check failed."""


class Infeasible(BaseException):
    """Current path is infeasible / assumption false."""


class SymViolation(BaseException):
    def __init__(self, label, info, values):
        super().__init__(label)
        self.label, self.info, self.values = label, info, values


NO_END = 'the code terminates'


class Stalled(BaseException):
    """No decision, goal or query for a long time: the code may not terminate."""


class BoundExceeded(Exception):
    pass


class EngineError(Exception):
    pass


# ============================================================================ symbolic mode
class Engine:
    max_paths = 4000
    max_decisions = 400

    def __init__(self, harness, lifter, tier, deadline):
        self.h = harness
        self.lifter = lifter
        self.tier = tier
        self.deadline = deadline
        self.paths = 0
        self.decisions = 0
        self.checks = 0
        self.trivial = 0
        self.assumed_nonzero = 0
        self.div_nodes = {}
        self.exp_log = None
        self.samples = []
        self.skip_feas = False
        self.known, self.conc, self.pc = set(), {}, []
        self.timeout = getattr(harness, 'timeout_ms', 20000)

    # -- hooks used by expr --------------------------------------------------------------
    def note_div(self, b):
        if not b.pos:
            self.div_nodes[b.id] = b

    def note_exp(self, a):
        if self.exp_log is not None:
            self.exp_log.append(a)

    def note_log(self, a):
        pass

    def rng(self, seed=None):
        return self.ctx.rng(seed)

    # -- path machinery --------------------------------------------------------------------
    def feasible(self, extra):
        from . import enc
        if self.skip_feas:
            return True
        return enc.maybe_sat(self.pc + extra, timeout_ms=1500)

    def decide(self, b):
        nb = E.bnot(b)
        if b.id in self.known:
            return True
        if nb.id in self.known:
            return False
        self.progress()
        if time.time() > self.deadline:
            raise BoundExceeded('time')
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            if self.pos > self.max_decisions:
                raise Stalled('decisions per path')
            t = self.feasible([b])
            f = self.feasible([nb]) if t else True
            if t and f:
                v = True
                self.stack.append(self.prefix + [False])
            else:
                v = t
            self.prefix = self.prefix + [v]
        self.pos += 1
        self.decisions += 1
        c = b if v else nb
        self.learn(c)
        return v

    def learn(self, c):
        self.pc.append(c)
        self.known.add(c.id)
        if c.op == 'and':
            for x in c.args:
                self.known.add(x.id)

    def concretize(self, n):
        """Fork over the values of an integer term."""
        if n.id in self.conc:
            return self.conc[n.id]
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            cand = self._int_values(n)
            ok = [c for c in cand if self.feasible([E.eq(n, E.cst(c))])]
            if not ok:
                raise Infeasible()
            v = ok[0]
            for c in ok[1:]:
                self.stack.append(self.prefix + [c])
            self.prefix = self.prefix + [v]
        self.pos += 1
        self.decisions += 1
        self.conc[n.id] = v
        self.learn(E.eq(n, E.cst(v)))
        if n.op == 'var':
            pass
        return v

    def _int_values(self, n):
        import itertools
        vs = E.all_vars(n)
        if vs and all(v.data[1] is not None for v in vs):
            tot = 1
            for v in vs:
                tot *= len(v.data[1])
            if tot <= 20000:
                s = set()
                for t in itertools.product(*[v.data[1] for v in vs]):
                    s.add(int(E.evalf(n, {v.id: c for v, c in zip(vs, t)})))
                return sorted(s)
        from . import enc
        out = []
        blk = []
        while len(out) < 200:
            aux = E.var('__conc', 'R')
            r, info = enc.check(self.pc + blk + [E.eq(aux, n)], timeout_ms=3000, ranges=False)
            if r == 'unsat':
                return sorted(out)
            if r != 'sat':
                raise Unsupported('cannot enumerate integer term')
            v = enc._zval(info[1], info[0].vars[aux.id][1])
            out.append(int(v))
            blk.append(E.bnot(E.eq(n, E.cst(int(v)))))
        raise BoundExceeded('integer term has too many values')

    def merge_call(self, f, *a, **k):
        """Run f over all of its local paths and join the results with ite (no fork in the caller)."""
        saved = (self.prefix, self.pos, self.stack, self.pc, self.known, self.conc)
        sf = self.skip_feas
        self.stack = [[]]
        self.skip_feas = True
        results = []
        try:
            while self.stack:
                if time.time() > self.deadline:
                    raise BoundExceeded('time')
                self.prefix = self.stack.pop()
                self.pos = 0
                self.pc, self.known, self.conc = list(saved[3]), set(saved[4]), dict(saved[5])
                n0 = len(self.pc)
                self.paths += 1
                try:
                    r = f(*a, **k)
                except Infeasible:
                    continue
                results.append((E.band(*self.pc[n0:]), r))
        except Exception:
            # keep the failing path's condition for the report, restore the exploration state
            self.prefix, self.pos, self.stack = saved[:3]
            raise
        finally:
            self.skip_feas = sf
        self.prefix, self.pos, self.stack, self.pc, self.known, self.conc = saved
        if not results:
            raise Infeasible()
        out = results[-1][1]
        for c, r in reversed(results[:-1]):
            out = join(c, r, out)
        return out

    # -- run ---------------------------------------------------------------------------------
    def run(self):
        """Explore all paths of the harness.  Returns list of SymViolation candidates (first only)."""
        self.stack = [[]]
        E.CUR.engine = self
        try:
            while self.stack:
                if self.paths >= self.max_paths:
                    raise BoundExceeded('paths')
                if time.time() > self.deadline:
                    raise BoundExceeded('time')
                self.prefix = self.stack.pop()
                self.pos = 0
                self.pc, self.known, self.conc = [], set(), {}
                self.ctx = SymCtx(self)
                self.paths += 1
                self.progress()
                try:
                    self.h.fn(self.ctx, **self.h.params)
                except Infeasible:
                    self.paths -= 1
                except Stalled as e:
                    self._stalled(e)
                except (Unsupported, BoundExceeded, EngineError) as e:
                    self._stopped(e)
                    raise
                except (SymViolation, KeyboardInterrupt, MemoryError):
                    raise
                except Exception as e:
                    tb = traceback.format_exc()
                    self._exception(e, tb)
                finally:
                    self.ctx.unpatch()
        finally:
            E.CUR.engine = None

    def _stalled(self, e):
        from . import enc
        r, info = enc.check(self.pc, timeout_ms=10000)
        raise SymViolation(NO_END, str(e), self._values(info) if r == 'sat' else [{}])

    def _stopped(self, e):
        """Symbolic execution cannot go on: inputs that reach this point, for a try on the real code."""
        from . import enc
        try:
            g = self.guess(self.pc)
            if g is not None:
                e.reach = [g]
            else:
                r, info = enc.check(self.pc, timeout_ms=10000)
                e.reach = self._values(info) if r == 'sat' else []
        except Exception:
            e.reach = []

    def progress(self):
        from . import enc
        enc.progress()

    def _exception(self, e, tb):
        """The lifted code raised: a violation candidate if the path is feasible."""
        from . import enc
        r, info = enc.check(self.pc, timeout_ms=10000)
        if r == 'unsat':
            return
        vals = self._values(info) if r == 'sat' else [{}]
        raise SymViolation('exception %s: %s' % (type(e).__name__, e), tb, vals)

    def _values(self, info):
        from . import enc
        vs = list(self.ctx.vars.values())
        return enc.model_values(info, vs)

    def check_eq(self, x, y, label):
        """Equality goal handed to the solver with both sides kept apart."""
        from . import enc
        if x is not y and x.sort != 'B' and y.sort != 'B' and E.has_op((x, y), ('exp',)):
            try:
                cache = {}
                a, b = E.canon_shift(x, enc.poly, cache), E.canon_shift(y, enc.poly, cache)
                if a is b:
                    x = y = a
                elif len(E.all_vars(x, y)) > 8:
                    x, y = a, b
            except (Unsupported, enc.TooBig):
                pass
        if x.sort != 'B' and y.sort != 'B' and not E.has_op((x, y), ('log', 'const_inf')):
            if x is not y:
                g = self.guess(self.pc + [E.bnot(E.eq(x, y))])
                if g is not None:
                    raise SymViolation(label, None, [g])
            r, info = enc.check(self.pc + [E.mk('rawne', (x, y), 'B')], timeout_ms=self.timeout, quick=True,
                                opaque=x is y)
            if r == 'unsat':
                self.checks += 1
                if x is y:
                    self.trivial += 1
                elif len(self.samples) < 3:
                    self.samples.append({'harness': self.h.name, 'goal': label,
                                         'formula': E.show(x, 150) + ' == ' + E.show(y, 150)})
                return
        self.check(E.eq(x, y), label)

    def guess(self, forms, tries=8):
        """Random interpretation of the encoded formula; values making every conjunct true by a margin, or None.
        Only used to shorten the search for a counterexample (which is then replayed on the real code)."""
        if any(f.op == 'bconst' and not f.data for f in forms):
            return None
        vs = E.all_vars(*forms)
        rnd = random.Random(len(vs) + self.checks)
        for k in range(tries):
            env = {}
            for v in vs:
                nm, dom = v.data
                if v.sort == 'B':
                    env[v.id] = rnd.random() < .5
                elif dom is not None:
                    env[v.id] = Fraction(rnd.choice(dom))
                elif v.sort == 'I':
                    env[v.id] = Fraction(rnd.randint(-3, 12))
                elif nm.startswith('rng'):
                    env[v.id] = rnd.random()
                elif v.pos:
                    env[v.id] = rnd.uniform(.1, 2)
                else:
                    env[v.id] = rnd.uniform(-1.5, 1.5)
            try:
                cache = {}
                if all(E.evalf(f, env, cache, margin=1e-6) is True for f in forms):
                    return {v.data[0]: env[v.id] if isinstance(env[v.id], (bool, Fraction)) else Fraction(env[v.id])
                            for v in vs}
            except (E.Marginal, Unsupported, ArithmeticError, ValueError, TypeError, AttributeError):
                continue
        return None

    def check(self, cond, label):
        from . import enc
        cond = E.tobool(E.L(cond))
        self.checks += 1
        if cond.op == 'bconst' and cond.data:
            self.trivial += 1
        elif cond.op != 'bconst':
            g = self.guess(self.pc + [E.bnot(cond)])
            if g is not None:
                raise SymViolation(label, None, [g])
        r, info = enc.check(self.pc + [E.bnot(cond)], timeout_ms=self.timeout)
        if r == 'unsat':
            if len(self.samples) < 3 and cond.op != 'bconst':
                self.samples.append({'harness': self.h.name, 'goal': label, 'formula': E.show(cond, 200)})
            return
        if r == 'sat':
            raise SymViolation(label, None, self._values(info))
        raise EngineError('solver gave no verdict on %s / %s' % (self.h.name, label))


def join(c, a, b):
    """ite over nested results."""
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        return type(a)(join(c, x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
        from .npx import to_obj, wrap
        A, B = to_obj(a), to_obj(b)
        r = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            r[ix] = E.ite(c, E.L(A[ix]), E.L(B[ix]))
        return wrap(r, getattr(a, 'ld', None) or 'f')
    if a is b:
        return a
    x, y = E.lift(a), E.lift(b)
    if x is not None and y is not None:
        return E.ite(c, x, y)
    if a == b:
        return a
    raise Unsupported('cannot join %r and %r' % (type(a), type(b)))


class Patching:
    def patch(self, obj, name, value):
        """Sets an attribute until the end of the run."""
        self._undo.append((obj, name, obj.__dict__.get(name, Patching), value))
        setattr(obj, name, value)

    def unpatch(self):
        for obj, name, old, _ in reversed(self._undo):
            if old is Patching:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self._undo = []

    def optimizer(self, module, name, fake):
        """Replace a scipy.optimize routine, however the module under test reaches it."""
        if self.symbolic:
            from . import lift
            self.patch(lift.OPT_STORE, name, fake)
        else:
            import scipy.integrate
            import scipy.optimize as so
            self.patch(scipy.integrate if name == 'quad' else so, name, fake)
        if hasattr(module, name):
            self.patch(module, name, fake)

    def exact_logs(self):
        """exp and log of concrete numbers are kept as exact symbols instead of rounded floats."""
        if self.symbolic:
            from . import npx
            self.patch(npx.NPX, 'exact_logs', True)

    def fork_abs(self):
        if self.symbolic:
            self.patch(E, 'FORK_ABS', True)

    def rewind(self, n=0):
        """The random draws after the n-th are handed out again."""
        self.nrng = n
        del self.draws[n:]

    def limit_draws(self, n):
        """Runs drawing more than n random values are outside the bound."""
        self.max_draws = self.nrng + n

    def drawn(self, kind):
        return [d[1] for d in self.draws if d[0] == kind]

    def _log(self, kind, v, lo=None, hi=None):
        self.draws.append((kind, v, lo, hi))
        return v


class SymCtx(Patching):
    mode = 'sym'
    symbolic = True

    def __init__(self, eng):
        self.eng = eng
        self.vars = {}
        self.nrng = 0
        self._undo, self.draws, self.seeds, self.max_draws = [], [], [], None
        self.random = None      # a generator used instead of the scripted one
        self.tier = eng.tier
        from .npx import NPP
        self.np = NPP

    # inputs
    def _var(self, name, sort='R', pos=False, dom=None):
        v = E.var(name, sort, pos, dom)
        self.vars[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False):
        v = self._var(name, 'R', pos=pos)
        if lo is not None:
            self.assume(E.le(E.L(lo), v))
        if hi is not None:
            self.assume(E.le(v, E.L(hi)))
        return v

    def int(self, name, dom):
        dom = tuple(dom)
        if len(dom) == 1:
            return E.cst(dom[0])
        return self._var(name, 'I', dom=dom)

    def integer(self, name, lo=None, hi=None, spread=False):
        """Unbounded (or range-bounded) integer, kept symbolic."""
        v = self._var(name, 'I')
        if lo is not None:
            self.assume(E.le(E.L(lo), v))
        if hi is not None:
            self.assume(E.le(v, E.L(hi)))
        return v

    def choice(self, name, dom):
        """Like int but forks immediately, returning a concrete Python int."""
        return self.int(name, dom).__index__()

    def bool(self, name):
        return self._var(name, 'B')

    def reals(self, name, shape, **k):
        return self._fill(name, shape, lambda nm: self.real(nm, **k), 'f')

    def ints(self, name, shape, dom):
        return self._fill(name, shape, lambda nm: self.int(nm, dom), 'i')

    def _fill(self, name, shape, f, ld):
        from .npx import wrap
        if isinstance(shape, int):
            shape = (shape,)
        r = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            r[ix] = f(name + '[' + ','.join(map(str, ix)) + ']')
        return wrap(r, ld)

    def array(self, a, dtype=None):
        """Concrete array constant in the context's array type."""
        from .npx import NPX, wrap
        if dtype is not None:
            a = np.array(a, dtype=dtype)
        return NPX.array(a)

    # RNG
    def rng(self, seed=None):
        self.seeds.append(seed)
        return SymRNG(self) if self.random is None else self.random

    def script_random(self, module):
        pass

    # library
    def lib(self, name):
        return self.eng.lifter.load('coniii.' + name if name else 'coniii')

    # logic
    def assume(self, c):
        c = E.tobool(E.L(c))
        if c is E.TRUE:
            return
        if c is E.FALSE:
            raise Infeasible()
        if c.id not in self.eng.known:
            self.eng.learn(c)

    def assume_feasible(self):
        if self.eng.pc and not self.eng.feasible([]):
            raise Infeasible()

    def check(self, c, label):
        if isinstance(c, np.ndarray):
            c = E.band(*[E.tobool(E.L(x)) for x in c.ravel().tolist()])
        self.eng.check(c, label)

    def eq(self, a, b, label, each=True):
        """a == b elementwise (shapes must agree)."""
        a_, b_ = np.shape(a) if not isinstance(a, Sym) else (), np.shape(b) if not isinstance(b, Sym) else ()
        self.check(a_ == b_, label + ': shape %s vs %s' % (a_, b_))
        from .npx import to_obj
        A = to_obj(a).ravel().tolist() if a_ != () else [E.L(a.item() if isinstance(a, np.ndarray) else a)]
        B = to_obj(b).ravel().tolist() if b_ != () else [E.L(b.item() if isinstance(b, np.ndarray) else b)]
        for i, (x, y) in enumerate(zip(A, B)):
            if isinstance(x, Sym) and isinstance(y, Sym):
                self.eng.check_eq(x, y, label + ('[%d]' % i if len(A) > 1 else ''))
            else:
                self.eng.check(x == y, label + '[%d]' % i)

    def le(self, a, b, label):
        self.check(E.le(E.L(a), E.L(b)), label)

    def lt(self, a, b, label):
        self.check(E.lt(E.L(a), E.L(b)), label)

    def iff(self, a, b, label):
        self.check(E.eq(E.tobool(E.L(a)), E.tobool(E.L(b))), label)

    def implies(self, a, b, label):
        self.check(E.bor(E.bnot(E.tobool(E.L(a))), E.tobool(E.L(b))), label)

    def and_(self, *a): return E.band(*[E.tobool(E.L(x)) for x in a])
    def or_(self, *a): return E.bor(*[E.tobool(E.L(x)) for x in a])
    def not_(self, a): return E.bnot(E.tobool(E.L(a)))
    def ite(self, c, a, b): return E.ite(E.tobool(E.L(c)), E.L(a), E.L(b))

    def lt_(self, a, b): return E.lt(E.L(a), E.L(b))
    def le_(self, a, b): return E.le(E.L(a), E.L(b))
    def eq_(self, a, b): return E.eq(E.L(a), E.L(b))

    def branch(self, c):
        return bool(E.tobool(E.L(c)))

    def merged(self, f):
        """f with its internal branches joined into conditional values."""
        return lambda *a, **k: self.eng.merge_call(f, *a, **k)

    def fail(self, label):
        self.check(False, label)

    def raises(self, f, exc, label):
        try:
            f()
        except exc:
            self.check(True, label)
            return
        self.check(False, label + ': no exception')

    # math over context scalars
    def exp(self, x): return E.exp(E.L(x))
    def log(self, x): return E.log(E.L(x))
    def sqrt(self, x): return E.sqrt(E.L(x))
    def sum(self, xs):
        from .npx import _sumlist
        return _sumlist([E.L(x) for x in xs])

    def frac(self, a, b=1): return E.cst(Fraction(a, b), 'R')
    def max(self, xs): return E.smax(xs)
    def diff(self, f, v): return E.diff(E.num(E.L(f)), v)

    def exps_during(self, f):
        """Run f, returning (result, list of arguments passed to exp)."""
        self.eng.exp_log = []
        try:
            r = f()
            return r, list(self.eng.exp_log)
        finally:
            self.eng.exp_log = None

    def concrete(self, x):
        from .npx import native_if_const
        return native_if_const(x)

    def gradient_check(self, f, x, g, label):
        """g must equal the gradient of scalar function value f wrt symbols x (sym: exact derivative)."""
        fv = E.num(E.L(f(x)))
        for i, v in enumerate(x.ravel().tolist()):
            self.eng.check_eq(E.L(g[i]), E.diff(fv, v), '%s d/dx%d' % (label, i))


class SymRNG:
    """Nondeterministic RandomState: every draw is a fresh symbolic value."""

    def __init__(self, ctx):
        self.ctx = ctx

    def _nm(self):
        self.ctx.nrng += 1
        if self.ctx.max_draws is not None and self.ctx.nrng > self.ctx.max_draws:
            raise Infeasible()
        return 'rng%d' % self.ctx.nrng

    def _u(self):
        nm = self._nm()
        v = self.ctx._var(nm, 'R')
        self.ctx.assume(E.le(E.ZERO, v))
        self.ctx.assume(E.lt(v, E.ONE))
        return self.ctx._log('u', v)

    def rand(self, *shape):
        if not shape:
            return self._u()
        return self._arr(shape, self._u, 'f')

    def random_sample(self, size=None):
        return self.rand() if size is None else self._arr(size, self._u, 'f')
    random = random_sample
    sample = random_sample
    ranf = random_sample

    def uniform(self, low=0., high=1., size=None):
        f = lambda: E.L(low) + (E.L(high) - E.L(low)) * self._u()
        return f() if size is None else self._arr(size, f, 'f')

    def _arr(self, size, f, ld):
        from .npx import wrap
        if isinstance(size, (int, np.integer, Sym)):
            size = (size,)
        size = tuple(s.__index__() for s in size)
        r = np.empty(size, dtype=object)
        for ix in np.ndindex(*size):
            r[ix] = f()
        return wrap(r, ld)

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        low, high = low.__index__(), high.__index__()
        if high <= low:
            raise ValueError('low >= high')

        def one():
            if high - low > 64:
                # a seed
                v = self.ctx._var(self._nm(), 'I')
                self.ctx.assume(E.le(E.cst(low), v))
                self.ctx.assume(E.lt(v, E.cst(high)))
                return self.ctx._log('seed', v)
            if high - low == 1:
                self._nm()
                return self.ctx._log('i', E.cst(low), low, high)
            return self.ctx._log('i', self.ctx._var(self._nm(), 'I', dom=tuple(range(low, high))), low, high)
        return one() if size is None else self._arr(size, one, 'i')
    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        from .npx import NPX, SymArray
        if isinstance(a, (int, np.integer, Sym)):
            items = list(range(a.__index__()))
        else:
            items = list(NPX.asarray(a))
        if not replace and size is not None:
            n = size if not isinstance(size, tuple) else int(np.prod(size))
            pool = list(range(len(items)))
            out = []
            for _ in range(n):
                k = self.randint(len(pool)).__index__()
                out.append(items[pool.pop(k)])
            return NPX.array(out)

        def one():
            d = [E.lift(x) for x in items]
            if all(x is not None and x.op == 'const' for x in d) and all(x.data.denominator == 1 for x in d):
                vals = tuple(int(x.data) for x in d)
                sort = 'I' if all(x.sort == 'I' for x in d) else 'R'
                if len(vals) == 1:
                    self._nm()
                    return self.ctx._log('c', d[0])
                return self.ctx._log('c', self.ctx._var(self._nm(), sort, dom=vals))
            return items[self.randint(len(items)).__index__()]
        return one() if size is None else self._arr(size, one, None)

    def permutation(self, n):
        from .npx import NPX
        items = list(range(n)) if isinstance(n, (int, np.integer)) else list(n)
        out = []
        while items:
            out.append(items.pop(self.randint(len(items)).__index__()))
        return NPX.array(out)

    def shuffle(self, a):
        p = [a[i] for i in self.permutation(len(a))]
        for i, v in enumerate(p):
            a[i] = v

    def normal(self, loc=0., scale=1., size=None):
        f = lambda: E.L(loc) + E.L(scale) * self.ctx._var(self._nm(), 'R')
        if size is None:
            return f()
        return self._arr(size, f, 'f')

    def randn(self, *shape):
        return self.normal(size=shape or None)
    standard_normal = lambda self, size=None: self.normal(size=size)

    def seed(self, *a):
        pass

    def get_state(self):
        return None

    def set_state(self, s):
        pass


# ============================================================================ concrete mode
class ConcCtx(Patching):
    mode = 'conc'
    symbolic = False

    def __init__(self, values, seed=None, tol=1e-6, tier='quick', amp=1.):
        self.values = dict(values)
        self.amp = amp          # factor of all unbounded reals
        self.rnd = random.Random(seed if seed is not None else 0)
        self.used = {}
        self.np = np
        self.tol = tol
        self.nrng = 0
        self._undo, self.draws, self.seeds, self.max_draws = [], [], [], None
        self.random = None      # a generator used instead of the scripted one
        self.tier = tier
        self.assume_failed = False

    def _get(self, name, default):
        v = self.values.get(name, self.used.get(name))
        if v is None:
            v = default()
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False):
        def d():
            a = lo if lo is not None else (.1 if pos else -1.5)
            b = hi if hi is not None else max(1.5, a + 1)
            return self.rnd.uniform(float(a), float(b))
        if lo is None and hi is None and not pos and self.amp != 1. and name not in self.used:
            self.values[name] = float(self.values.get(name, d())) * self.amp
        return float(self._get(name, d))

    def int(self, name, dom):
        dom = tuple(dom)
        return int(self._get(name, lambda: self.rnd.choice(dom)))
    choice = int

    def integer(self, name, lo=None, hi=None, spread=False):
        lo = -10 if lo is None else lo
        if spread:
            return int(self._get(name, lambda: self.rnd.randint(lo, hi)))
        return int(self._get(name, lambda: self.rnd.randint(lo, min(hi if hi is not None else lo + 20, lo + 20))))

    def bool(self, name):
        return bool(self._get(name, lambda: self.rnd.random() < .5))

    def reals(self, name, shape, **k):
        return self._fill(name, shape, lambda nm: self.real(nm, **k), float)

    def ints(self, name, shape, dom):
        return self._fill(name, shape, lambda nm: self.int(nm, dom), int)

    def _fill(self, name, shape, f, dt):
        if isinstance(shape, int):
            shape = (shape,)
        r = np.zeros(shape, dtype=dt)
        for ix in np.ndindex(*shape):
            r[ix] = f(name + '[' + ','.join(map(str, ix)) + ']')
        return r

    def array(self, a, dtype=None):
        return np.array(a, dtype=dtype) if dtype is not None else np.array(a)

    def rng(self, seed=None):
        self.seeds.append(seed)
        return ConcRNG(self) if self.random is None else self.random

    def script_random(self, module):
        """numpy.random in the module hands out scripted generators."""
        ctx = self

        class Rnd:
            def RandomState(self, *a, **k):
                return ctx.rng(*a, **k)
            default_rng = RandomState

            def seed(self, *a):
                pass

            def __getattr__(self, k):
                return getattr(ConcRNG(ctx) if ctx.random is None else ctx.random, k)

        m = types.ModuleType('numpy')
        m.__dict__.update({k: getattr(np, k) for k in dir(np) if not k.startswith('__')})
        m.random = Rnd()
        self.patch(module, 'np', m)

    def lib(self, name):
        import importlib
        return importlib.import_module('coniii.' + name if name else 'coniii')

    def assume(self, c):
        if not bool(c):
            raise Infeasible()

    def assume_feasible(self):
        pass

    def check(self, c, label):
        if isinstance(c, np.ndarray):
            c = c.all()
        if not bool(c):
            raise PropertyFailure(label)

    def eq(self, a, b, label, each=True):
        a, b = np.asarray(a), np.asarray(b)
        self.check(a.shape == b.shape, label + ': shape %s vs %s' % (a.shape, b.shape))
        if a.dtype.kind in 'US' or b.dtype.kind in 'US':
            self.check((a == b).all(), '%s: %s != %s' % (label, a, b))
            return
        a = a.astype(float)
        b = b.astype(float)
        ok = np.abs(a - b) <= self.tol * (1 + np.abs(b))
        ok |= (a == b)
        if not ok.all():
            raise PropertyFailure('%s: got %s expected %s' % (label, a.tolist(), b.tolist()))

    def le(self, a, b, label):
        self.check(float(a) <= float(b) + self.tol * (1 + abs(float(b))), '%s: %s <= %s' % (label, a, b))

    def lt(self, a, b, label):
        self.check(float(a) < float(b) + self.tol, '%s: %s < %s' % (label, a, b))

    def iff(self, a, b, label):
        self.check(bool(a) == bool(b), label)

    def implies(self, a, b, label):
        self.check((not bool(a)) or bool(b), label)

    def and_(self, *a): return all(bool(x) for x in a)
    def or_(self, *a): return any(bool(x) for x in a)
    def not_(self, a): return not bool(a)
    def ite(self, c, a, b): return a if bool(c) else b
    def lt_(self, a, b): return a < b
    def le_(self, a, b): return a <= b
    def eq_(self, a, b): return a == b
    def branch(self, c): return bool(c)

    def merged(self, f):
        return f

    def fail(self, label):
        raise PropertyFailure(label)

    def raises(self, f, exc, label):
        try:
            f()
        except exc:
            return
        raise PropertyFailure(label + ': no exception')

    def exp(self, x): return math.exp(x) if x < 700 else math.inf
    def log(self, x): return math.log(x)
    def sqrt(self, x): return math.sqrt(x)
    def sum(self, xs): return sum(xs)
    def frac(self, a, b=1): return a / b
    def max(self, xs): return max(xs)

    def exps_during(self, f):
        return f(), []

    def concrete(self, x):
        return x

    def gradient_check(self, f, x, g, label):
        h = 1e-5
        for i in range(x.size):
            xp, xm = x.copy(), x.copy()
            xp.reshape(-1)[i] += h
            xm.reshape(-1)[i] -= h
            d = (float(f(xp)) - float(f(xm))) / (2 * h)
            if abs(d - float(g[i])) > 1e-4 * (1 + abs(d)):
                raise PropertyFailure('%s d/dx%d: got %r, numerical derivative %r' % (label, i, float(g[i]), d))


class ConcRNG:
    """RandomState replaying the solver's draws (and seeded random ones beyond them)."""

    def __init__(self, ctx):
        self.ctx = ctx

    def _nm(self):
        self.ctx.nrng += 1
        if self.ctx.max_draws is not None and self.ctx.nrng > self.ctx.max_draws:
            raise Infeasible()
        return 'rng%d' % self.ctx.nrng

    def _u(self):
        return self.ctx._log('u', float(self.ctx._get(self._nm(), self.ctx.rnd.random)))

    def rand(self, *shape):
        return self._u() if not shape else self._arr(shape, self._u, float)

    def random_sample(self, size=None):
        return self.rand() if size is None else self._arr(size, self._u, float)
    random = random_sample
    sample = random_sample
    ranf = random_sample

    def uniform(self, low=0., high=1., size=None):
        f = lambda: low + (high - low) * self._u()
        return f() if size is None else self._arr(size, f, float)

    def _arr(self, size, f, dt):
        if isinstance(size, (int, np.integer)):
            size = (size,)
        r = [f() for _ in range(int(np.prod(size)))]
        return np.array(r, dtype=dt).reshape(size)

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low

        def one():
            nm = self._nm()
            if high - low > 64:
                return self.ctx._log('seed', int(self.ctx._get(nm, lambda: self.ctx.rnd.randrange(low, high))))
            if high - low == 1:
                return self.ctx._log('i', low, low, high)
            return self.ctx._log('i', int(self.ctx._get(nm, lambda: self.ctx.rnd.randrange(low, high))), low, high)
        return one() if size is None else self._arr(size, one, int)
    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if not replace and size is not None:
            n = size if not isinstance(size, tuple) else int(np.prod(size))
            pool = list(range(len(items)))
            return np.array([items[pool.pop(self.randint(len(pool)))] for _ in range(n)])

        def one():
            if all(isinstance(x, (int, float, np.number)) and float(x).is_integer() for x in items):
                nm = self._nm()
                if len(items) == 1:
                    return self.ctx._log('c', items[0])
                v = self.ctx._get(nm, lambda: self.ctx.rnd.choice(items))
                return self.ctx._log('c', type(items[0])(v))
            return items[self.randint(len(items))]
        return one() if size is None else self._arr(size, one, np.asarray(items).dtype)

    def permutation(self, n):
        items = list(range(n)) if isinstance(n, (int, np.integer)) else list(n)
        out = []
        while items:
            out.append(items.pop(self.randint(len(items))))
        return np.array(out)

    def shuffle(self, a):
        p = [a[i] for i in self.permutation(len(a))]
        for i, v in enumerate(p):
            a[i] = v

    def normal(self, loc=0., scale=1., size=None):
        f = lambda: loc + scale * float(self.ctx._get(self._nm(), lambda: self.ctx.rnd.gauss(0, 1)))
        return f() if size is None else self._arr(size, f, float)

    def randn(self, *shape):
        return self.normal(size=shape or None)

    def seed(self, *a):
        pass


# ============================================================================ harness registry
class Harness:
    def __init__(self, fn, name, params, encodes, bound, tiers, opts):
        self.fn, self.name, self.params = fn, name, params
        self.encodes, self.bound, self.tiers = encodes, bound, tiers
        self.__dict__.update(opts)


class Registry:
    def __init__(self):
        self.h = []

    def add(self, name, fn, encodes=(), bound='', tiers=('quick', 'thorough'), params=None, **opts):
        self.h.append(Harness(fn, name, params or {}, list(encodes), bound, tiers, opts))

    def harness(self, name=None, encodes=(), bound='', tiers=('quick', 'thorough'), cases=None, thorough=None, **opts):
        """Decorator. cases: list of param dicts (quick+thorough); thorough: extra thorough-only cases."""
        def d(fn):
            nm = name or fn.__name__
            for c in (cases if cases is not None else [{}]):
                sfx = ','.join('%s=%s' % kv for kv in c.items())
                self.add(nm + ('(' + sfx + ')' if sfx else ''), fn, encodes, bound, tiers, c, **opts)
            for c in (thorough or []):
                sfx = ','.join('%s=%s' % kv for kv in c.items())
                self.add(nm + '(' + sfx + ')', fn, encodes, bound, ('thorough',), c, **opts)
            return fn
        return d


def run_concrete(h, values, seed=0, tol=1e-6, tier='quick', amp=1.):
    """Returns (status, message): 'ok' / 'fail' / 'skip' (assumption not met)."""
    ctx = ConcCtx(values, seed, tol, tier, amp)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        old = np.seterr(all='ignore')
        try:
            h.fn(ctx, **h.params)
            return 'ok', '', ctx
        except Infeasible:
            return 'skip', '', ctx
        except PropertyFailure as e:
            return 'fail', str(e), ctx
        except Exception as e:
            return 'fail', 'exception %s: %s' % (type(e).__name__, e), ctx
        finally:
            ctx.unpatch()
            np.seterr(**old)
