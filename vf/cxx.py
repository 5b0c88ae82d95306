"""The C++ samplers of /repo/cpp, executed symbolically (LLVM IR) or natively (for replay and validation)."""
import atexit
import ctypes
import os
import shutil
import subprocess
import tempfile

from . import expr as E
from . import llvm
from .expr import Sym, Unsupported
from .lift import REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_owner = None
STATES = ((-1, 1), (0, 1, 2))


class BuildError(Exception):
    pass


def directory():
    """Scratch directory with driver.ll and driver.so built from the current sources."""
    global _owner
    d = os.environ.get('VF_CXX_DIR')
    if d and os.path.exists(os.path.join(d, 'ok')):
        return d
    d = tempfile.mkdtemp(prefix='vf_cxx_')
    _owner = os.getpid()
    os.environ['VF_CXX_DIR'] = d

    def clean():
        if os.getpid() == _owner:
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(clean)
    src = os.path.join(VERIF, 'cxx')
    base = ['-std=c++11', '-w', '-D_GLIBCXX_ASSERTIONS', '-DNDEBUG', '-I', os.path.join(src, 'stub'), '-I',
            os.path.join(REPO, 'cpp'), os.path.join(src, 'driver.cpp')]
    ir = ['clang++', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-S', '-emit-llvm', '-o',
          os.path.join(d, 'driver.ll')]
    so = ['g++', '-O1', '-shared', '-fPIC', '-DVF_NATIVE', '-o', os.path.join(d, 'driver.so')]
    ps = [subprocess.Popen(c + base, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in (ir, so)]
    for p in ps:
        out = p.communicate()[0]
        if p.returncode:
            raise BuildError('cpp/samplers.cpp does not compile with the stand-in headers:\n' + out[-1500:])
    open(os.path.join(d, 'ok'), 'w').close()
    return d


def prepare():
    """Build once, before the harnesses run in processes of their own; a failure is reported by them."""
    try:
        directory()
    except BuildError:
        os.environ.pop('VF_CXX_DIR', None)


class Fault(Exception):
    """Access out of range (both modes)."""


class SymBackend:
    def __init__(self, ctx):
        self.ctx = ctx
        eng = ctx.eng
        if not hasattr(eng, 'cxx_module'):
            with open(os.path.join(directory(), 'driver.ll')) as f:
                eng.cxx_module = llvm.Module(f.read())
        self.rng = ctx.rng()
        self.gens = []
        self.ranges = []
        self.vm = llvm.Machine(eng.cxx_module, {'vf_int': self._int, 'vf_real': self._real, 'vf_raw': self._raw,
                                                   'vf_hop': self._hop, 'vf_begin': self._begin})
        self.hops, self.states = [], STATES[0]

    def _int(self, vm, a):
        lo, hi = (llvm.sgn(vm.conc(x, 32), 32) for x in a[:2])
        self.gens.append(vm.conc(a[2]))
        self.ranges.append(('i', lo, hi))
        if hi < lo:
            raise Fault('empty range of a random draw')
        r = self.rng.randint(lo, hi + 1)
        return vm.norm(E.L(r), 32)

    def _real(self, vm, a):
        self.gens.append(vm.conc(a[2]))
        lo, hi = E.L(a[0]), E.L(a[1])
        self.ranges.append(('u', lo, hi))
        return lo + (hi - lo) * E.L(self.rng.rand())

    def _state(self, vm, a, n, name):
        a = vm.conc(a)
        new = self.ctx.ints(name, n, self.states).tolist()
        for i, x in enumerate(new):
            vm.mem.store(a + 4 * i, 4, vm.norm(E.L(x), 32))

    def _begin(self, vm, a):
        self._state(vm, a[0], vm.conc(a[1]), 'begin')

    def _hop(self, vm, a):
        p, n = vm.conc(a[0]), vm.conc(a[1])
        old = [vm.sym(vm.mem.load(p + 4 * i, 4), 32) for i in range(n)]
        self.hops.append((old, vm.sym(a[2], 32)))
        self._state(vm, p, n, 'hop%d' % len(self.hops))
        return self.ctx.real('de%d' % len(self.hops))

    def _raw(self, vm, a):
        raise Unsupported('raw output of the random generator used')

    def array(self, xs, size):
        a = self.vm.alloc(max(1, size * len(xs)))
        for i, x in enumerate(xs):
            if size == 8:
                x = E.toreal(E.L(x))
            else:
                x = self.vm.norm(E.L(x), 32)
            self.vm.mem.store(a + size * i, size, x)
        return a

    def call(self, fn, *args):
        """Ints (and handles) are passed as they are, ('d', xs) and ('i', xs) as arrays."""
        vm = self.vm
        out, arrs = [], []
        for x in args:
            if isinstance(x, tuple):
                size = 8 if x[0] in 'dp' else 4
                if x[0] == 'p':
                    a = vm.alloc(8)
                    vm.mem.store(a, 8, 0)
                elif x[1] is None or isinstance(x[1], int):
                    a = vm.alloc(max(1, size * (x[1] or 0)))
                else:
                    a = self.array(x[1], size)
                n = 1 if x[0] == 'p' else x[1] if isinstance(x[1], int) else len(x[1])
                arrs.append((x[0], a, n))
                out.append(a)
            else:
                out.append(x & 0xffffffff if isinstance(x, int) and x < 0 else x)
        try:
            r = vm.call(fn, *out)
        except llvm.Fault as e:
            raise Fault(str(e))
        r = llvm.sgn(vm.conc(r, 32), 32)
        if r == -1:
            raise Fault('index out of range')
        res = []
        for k, a, n in arrs:
            if k == 'p':
                res.append(vm.mem.load(a, 8))
                continue
            size = 8 if k == 'd' else 4
            o = []
            for i in range(n):
                try:
                    v = vm.mem.load(a + size * i, size)
                except llvm.Fault:
                    v = None
                if isinstance(v, int):
                    v = E.cst(llvm.sgn(v, 32)) if size == 4 else E.L(_double(v))
                o.append(v)
            res.append(o)
        return r, res


def _double(v):
    import struct
    return struct.unpack('<d', struct.pack('<Q', v))[0]


class ConcBackend:
    def __init__(self, ctx):
        self.rng = ctx.rng()
        self.gens, self.ranges = [], []
        self.lib = ctypes.CDLL(os.path.join(directory(), 'driver.so'))
        I = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_void_p)
        F = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_double, ctypes.c_double, ctypes.c_void_p)
        self.cb = (I(self._int), F(self._real))
        self.lib.vf_set(*self.cb)
        P = ctypes.POINTER(ctypes.c_int)
        H = ctypes.CFUNCTYPE(ctypes.c_double, P, ctypes.c_int, ctypes.c_int)
        B = ctypes.CFUNCTYPE(None, P, ctypes.c_int)
        self.ctx, self.hops, self.states = ctx, [], STATES[0]
        self.cb += (H(self._hop), B(self._begin))
        self.lib.vf_set_probe(*self.cb[2:])

    def _begin(self, p, n):
        for i, x in enumerate(self.ctx.ints('begin', n, self.states)):
            p[i] = int(x)

    def _hop(self, p, n, ix):
        self.hops.append(([p[i] for i in range(n)], ix))
        for i, x in enumerate(self.ctx.ints('hop%d' % len(self.hops), n, self.states)):
            p[i] = int(x)
        return self.ctx.real('de%d' % len(self.hops))

    def _int(self, lo, hi, g):
        self.gens.append(g)
        self.ranges.append(('i', lo, hi))
        if hi < lo:
            return lo
        return int(self.rng.randint(lo, hi + 1))

    def _real(self, lo, hi, g):
        self.gens.append(g)
        self.ranges.append(('u', lo, hi))
        return lo + (hi - lo) * float(self.rng.rand())

    def call(self, fn, *args):
        out, arrs = [], []
        for x in args:
            if isinstance(x, tuple):
                if x[0] == 'p':
                    a = (ctypes.c_void_p * 1)()
                    n = 1
                else:
                    T = ctypes.c_double if x[0] == 'd' else ctypes.c_int
                    n = x[1] if isinstance(x[1], int) else len(x[1])
                    a = (T * max(1, n))()
                    if not isinstance(x[1], int):
                        for i, v in enumerate(x[1]):
                            a[i] = float(v) if x[0] == 'd' else int(v)
                arrs.append((x[0], a, n))
                out.append(a)
            elif isinstance(x, Handle):
                out.append(ctypes.c_void_p(x))
            else:
                out.append(ctypes.c_int(int(x)) if abs(int(x)) < 2**31 else ctypes.c_void_p(int(x)))
        r = getattr(self.lib, fn)(*out)
        if r == -1:
            raise Fault('index out of range')
        res = []
        for k, a, n in arrs:
            if k == 'p':
                res.append(Handle(a[0] or 0))
            else:
                res.append([a[i] for i in range(n)])
        return r, res


class Handle(int):
    pass


class Sampler:
    """kind 0: Ising, 1: Potts3; 2, 3: the same with initial states and steps that end in arbitrary states."""

    def __init__(self, ctx, kind, n, params, seed=1, beside=None):
        """beside: another sampler, in the same process."""
        self.ctx, self.n = ctx, n
        self.b = beside.b if beside is not None else SymBackend(ctx) if ctx.symbolic else ConcBackend(ctx)
        ps = list(params.ravel().tolist()) if hasattr(params, 'ravel') else list(params)
        self.k = len(ps)
        self.b.states = STATES[kind % 2]
        if ctx.symbolic and beside is None:
            self.b.vm.soft = kind > 1
            # construction does not depend on the path: keep its result for the other paths of this harness
            cache = ctx.eng.__dict__.setdefault('cxx_cache', {})
            key = (kind, n, seed) + tuple(E.L(x).id for x in ps)
            if key in cache:
                mem, self.b.vm.heap, self.h = cache[key]
                self.b.vm.mem = mem.copy()
                return
            before = ctx.eng.pos, ctx.nrng, len(ctx.eng.pc)
        r, a = self.b.call('vf_new', kind, n, ('d', ps), len(ps), seed, ('p', None))
        self.h = a[1] if isinstance(a[1], Handle) else Handle(a[1])
        if ctx.symbolic and beside is None and before == (ctx.eng.pos, ctx.nrng, len(ctx.eng.pc)):
            cache[key] = (self.b.vm.mem.copy(), self.b.vm.heap, self.h)

    def energy(self, s):
        return self.b.call('vf_energy', self.h, ('i', list(s)), self.n, ('d', 1))[1][1][0]

    def step(self, s, ix):
        r, a = self.b.call('vf_step', self.h, ('i', list(s)), self.n, ix, ('d', 1))
        self.ctx.check(r == 0, 'state keeps its size')
        return a[0], a[1][0]

    def reread(self, params):
        self.b.call('vf_reread', self.h, ('d', list(params)), len(params))

    def sample(self, n_samples, burn_in, n_iters, systematic):
        self.b.call('vf_sample', self.h, n_samples, burn_in, n_iters, int(systematic))

    def cond(self, ix, vals, n_samples, burn_in, n_iters, systematic):
        self.b.call('vf_cond', self.h, ('i', list(ix)), ('i', list(vals)), len(ix), n_samples, burn_in, n_iters, int(systematic))

    def fetch(self, rows):
        r, a = self.b.call('vf_fetch', self.h, ('i', rows * self.n), rows, self.n)
        self.ctx.check(r == 0, 'shape and type of the fetched sample')
        return [a[0][i * self.n:(i + 1) * self.n] for i in range(rows)]

    def means(self):
        r, a = self.b.call('vf_means', self.h, ('d', self.n), self.n)
        self.ctx.check(r == 0, 'one mean per spin')
        return a[0]

    def params(self):
        r, a = self.b.call('vf_params', self.h, ('d', self.k), self.k)
        self.ctx.check(r == 0, 'one value per parameter')
        return a[0]

    def seeded(self, seed):
        return self.b.call('vf_seeded', self.h, seed)[0] == 1

    def own_generator(self):
        return all(self.b.call('vf_gen', self.h, Handle(g))[0] == 1 for g in self.b.gens)
