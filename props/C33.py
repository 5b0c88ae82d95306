"""C33: parallel sampling does not depend on how the tasks are scheduled on worker processes."""
import copy
import types
from itertools import permutations
from vf.engine import Registry, SymRNG
from vf import expr as X
from props.C30 import Stream, Twice, Replica, call, make

R = Registry()
S = 'coniii.samplers.'


def clone(x, memo):
    """What a worker process gets of an object: a copy, sharing nothing with the parent."""
    if id(x) in memo:
        return memo[id(x)][0]

    def keep(r):
        memo[id(x)] = (r, x)
        return r
    if isinstance(x, X.Sym) or x is None or isinstance(x, (int, float, str, bytes, bool, type, types.ModuleType, Twice)):
        return x
    if isinstance(x, SymRNG):
        r = keep(object.__new__(type(x)))
        r.__dict__.update(x.__dict__)
        return r
    if hasattr(x, 'dtype') and hasattr(x, 'shape'):
        return keep(x.copy())
    if isinstance(x, types.MethodType):
        return types.MethodType(x.__func__, clone(x.__self__, memo))
    if isinstance(x, types.FunctionType):
        if x.__closure__ is None and not x.__defaults__:
            return x
        cells = tuple(types.CellType() for _ in x.__closure__ or ())
        f = keep(types.FunctionType(x.__code__, x.__globals__, x.__name__, None, cells or None))
        f.__kwdefaults__ = x.__kwdefaults__
        f.__defaults__ = clone(x.__defaults__, memo)
        for c, d in zip(cells, x.__closure__ or ()):
            try:
                c.cell_contents = clone(d.cell_contents, memo)
            except ValueError:
                pass
        return f
    if isinstance(x, list):
        r = keep([])
        r.extend(clone(v, memo) for v in x)
        return r
    if isinstance(x, tuple):
        return tuple(clone(v, memo) for v in x)
    if isinstance(x, dict):
        r = keep({})
        r.update((k, clone(v, memo)) for k, v in x.items())
        return r
    if type(x).__module__.startswith(('coniii', 'props.C30')) and hasattr(x, '__dict__'):
        r = keep(object.__new__(type(x)))
        for k, v in x.__dict__.items():
            r.__dict__[k] = clone(v, memo)
        return r
    return x


class Schedule:
    """A pool whose tasks run in some order, in chunks, each chunk on a copy of what the parent had when it called map."""

    def __init__(self, tw, order=None, cut=None):
        self.tw, self.order, self.cut, self.maps, self.used = tw, order, cut, 0, []

    def __call__(self, *a, **k):
        return self

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
    def join(self): pass
    terminate = close

    def ship(self, x):
        if self.tw.ctx.symbolic:
            return clone(x, {})
        import dill
        return dill.loads(dill.dumps(x, recurse=False))

    def map(self, f, it, chunksize=None):
        items = list(it)
        k = len(items)
        self.maps += 1
        cuts = [i for i in range(1, k) if self.cut is None or self.cut]
        bounds = [0] + cuts + [k]
        chunks = [list(range(a, b)) for a, b in zip(bounds, bounds[1:])]
        shipped = [self.ship((f, [items[i] for i in c])) for c in chunks]
        out = [None] * k
        idx = list(range(len(chunks)))
        if self.order is not None:
            idx = list(self.order[:len(idx)]) if len(self.order) == len(idx) else idx[::-1]
        for q in idx:
            g, xs = shipped[q]
            for i, x in zip(chunks[q], xs):
                n = len(self.tw.log)
                r = g(x)
                self.used.append(set(self.tw.log[n:]))
                out[i] = r
        return [self.ship(r) for r in out]

    def imap(self, f, it, *a): return iter(self.map(f, it))
    imap_unordered = imap

    def starmap(self, f, it, *a): return self.map(lambda x: f(*x), it)


def schedules(ctx, tw, run, tasks, label):
    """run(generator) under the reference schedule and under an arbitrary one."""
    sm = tw.sm
    order = list(permutations(range(tasks)))[ctx.choice('order', range(len(list(permutations(range(tasks))))))] if tasks > 1 else (0,)
    cut = bool(ctx.choice('separate', (0, 1)))
    for k in range(1 if ctx.symbolic else 6):
        outs = []
        for o, c in ((None, True), (order, cut)):
            pool = Schedule(tw, o, c)
            sm.mp.Pool = pool
            sm.Pool = pool
            if not ctx.symbolic:
                import numpy as np
                np.random.seed(k)
            outs.append(run(tw.generator(k)))
            ctx.check(pool.maps > 0, label + ': tasks are given to the pool')
            if ctx.symbolic:
                for i in range(len(pool.used)):
                    for j in range(i):
                        ctx.check(not pool.used[i] & pool.used[j], label + ': no two tasks use the same draw')
        a, b = outs
        for p, (x, y) in enumerate(zip(a, b)):
            ctx.eq(x, y, '%s: result %d under any schedule' % (label, p))


def distinct(ctx, tw, tasks, label):
    """On the real code: the tasks do not always give the same sample. tasks(generator) -> one result per task."""
    if ctx.symbolic:
        return
    import numpy as np
    pool = Schedule(tw)
    tw.sm.mp.Pool = pool
    tw.sm.Pool = pool
    same = True
    for k in range(20):
        r = tasks(np.random.RandomState(k))
        same = same and all(np.array_equal(r[0], x) for x in r[1:])
    ctx.check(not same, label + ': no two tasks use the same draw')


def start(ctx, n, k):
    return ctx.array([[1] * n] * k)


@R.harness(encodes=[S + f for f in ('Metropolis.generate_sample_parallel_py', 'Metropolis.sample_metropolis')], max_paths=20000,
           bound='2 workers, 2 spins, 2 samples; both orders of the tasks, in one process or two; constant energy',
           cases=[dict(sysm=s, init=i, burn=b) for s, i, b in ((False, False, 0), (False, True, 0), (False, True, 1), (True, False, 1), (True, True, 1))])
def python_workers(ctx, sysm, init, burn):
    tw = Twice(ctx, True)
    tw.sm.mp = types.SimpleNamespace(Pool=None, cpu_count=lambda: 2)
    x = start(ctx, 2, 2) if init else None

    def run(g):
        s = make(tw, 'Metropolis', 2, g, False, 'slope' if sysm else True)
        return [call(s, 'parallel', sysm, 2, x, burn), ctx.np.array([ctx.np.ravel(e)[0] for e in s.E]), s._samples]
    schedules(ctx, tw, run, 2, 'Metropolis')

    def tasks(g):
        import numpy as np
        s = make(tw, 'Metropolis', 8, g, False, True)
        s.theta, s.calc_e = np.zeros(36), lambda s, t: np.cos(np.asarray(s, dtype=float).dot(np.arange(1., 9.)))
        s.generate_sample_parallel(2, n_iters=n_iters, burn_in=50 - n_iters, initial_sample=np.ones((2, 8), dtype=int), systematic_iter=sysm)
        return list(s.sample)
    for n_iters in (0, 50):
        distinct(ctx, tw, tasks, 'Metropolis')


@R.harness(encodes=[S + f for f in ('Metropolis.generate_sample_parallel_boost', 'Metropolis.generate_cond_sample_boost',
                                    'Potts3.generate_sample_parallel_boost')],
           bound='2 and 3 workers, 3 spins, 5 samples; every order of the tasks, in one process or one each; compiled sampler a '
           'function of its seed',
           cases=[dict(which=w, kind=k, cpus=c) for w, k in (('Metropolis', 'parallel'), ('Metropolis', 'cond parallel'), ('Potts3', 'parallel'))
                  for c in (2, 3)])
def compiled_workers(ctx, which, kind, cpus):
    tw = Twice(ctx)
    tw.sm.mp = types.SimpleNamespace(Pool=None, cpu_count=lambda: cpus)

    def one(g, n, size):
        s = make(tw, which, n, g, True)
        if which == 'Potts3':
            s.nCpus = cpus
        return s

    def run(g):
        return [call(one(g, 3, 5), kind, False, 5, None)]
    schedules(ctx, tw, run, cpus, which)

    def tasks(g):
        s = one(g, 3, cpus)
        s.theta = s.theta * 0
        r = call(s, kind, False, 4 * cpus, None)
        return [r[4 * i:4 * i + 4] for i in range(cpus)]
    distinct(ctx, tw, tasks, which)


@R.harness(encodes=[S + 'ParallelTempering.' + f for f in ('burn_in_replicas', 'burn_and_exchange', 'generate_sample')], max_paths=20000,
           bound='2 and 3 replicas of 2 spins, one sample; every order of the tasks, in one process or one each; temperatures not '
           'optimised; replicas are functions of their generator', cases=[dict(R_=2), dict(R_=3)])
def replica_workers(ctx, R_):
    tw = Twice(ctx)
    Replica.tw = tw
    ctx.patch(tw.sm, 'Metropolis', Replica)
    ctx.patch(tw.sm.ParallelTempering, 'optimize_beta', lambda self, *a, **k: None)
    th = ctx.reals('theta', 3)

    def run(g):
        p = tw.sm.ParallelTempering(2, th, None, R_, rng=g, Tbds=(1., 4.))
        p.generate_sample(1)
        return [x.copy() for x in p.sample]
    schedules(ctx, tw, run, R_, 'parallel tempering')


@R.harness(encodes=[S + 'WolffIsing.generate_sample_parallel'], max_paths=20000,
           bound='2 chains of 2 spins, one step; both orders, in one process or two', cases=[dict(init=True), dict(init=False)])
def wolff_workers(ctx, init):
    tw = Twice(ctx, True)
    it = tw.sm.iterate_neighbors
    ctx.patch(tw.sm, 'iterate_neighbors', getattr(it, 'py_func', it))
    tw.sm.mp = types.SimpleNamespace(Pool=None, cpu_count=lambda: 2)
    h, J = ctx.reals('h', 2), ctx.reals('J', 1)
    given = ctx.array([[1., 1.], [1., -1.]])

    def run(g):
        w = tw.sm.WolffIsing(J, h)
        w.rng = g
        if ctx.symbolic:
            tw.count = 0        # the global generator is in the same state
        start = given.copy()
        out = w.generate_sample_parallel(2, 1, initialSample=start if init else None)
        if init:
            ctx.eq(start, given, 'the initial states given are unchanged')
        return [out]
    schedules(ctx, tw, run, 2, 'Wolff')
