"""C30: sampling is a function of the random generator given."""
import random
import types
from vf.engine import Registry, SymRNG
from vf.lift import SerialPool
from vf import expr as X

R = Registry()
S = 'coniii.samplers.'
SEEDS = 8


class Stream(SymRNG):
    """A generator whose draws are determined by its seed: equal seeds, equal draws."""

    def __init__(self, ctx, key, log, forks):
        super().__init__(ctx)
        self.forks = forks
        self.key, self.k, self.log = key, 0, log

    def _nm(self):
        super()._nm()
        self.k += 1
        nm = 'draw(%s,%d)' % (self.key, self.k)
        self.log.append(nm)
        return nm

    def randint(self, low, high=None, size=None, dtype=None):
        lo, hi = (0, low) if high is None else (low, high)
        if hi - lo > 64:
            return super().randint(low, high, size)
        return self.fork(lambda: super(Stream, self).randint(low, high), size)

    def choice(self, a, size=None, **k):
        return self.fork(lambda: super(Stream, self).choice(a), size)

    def fork(self, f, size):
        """Sites and states are concrete numbers on every path."""
        if not self.forks:
            return f() if size is None else self._arr(size, f, 'i')
        if size is None:
            return self.value(f())
        return self._arr(size, lambda: X.cst(self.value(f())), 'i')

    def value(self, e):
        for v in (e.data[1] if e.op == 'var' else ()) or ():
            if bool(e == v):
                return v
        return e.__index__()


def key_of(seed):
    e = X.lift(seed)
    return 'seed %s' % (e.data if e.op == 'const' else 'e%d' % e.id)


class Twice:
    """Runs code with generators in a given state, any number of times; all other generators are arbitrary."""

    def __init__(self, ctx, forks=False):
        self.ctx, self.count, self.log, self.forks = ctx, 0, [], forks
        self.sm = ctx.lib('samplers')
        if ctx.symbolic:
            ctx.patch(ctx, 'rng', self.stream)
            self.boost()
        ctx.patch(self.sm, 'mp', types.SimpleNamespace(Pool=SerialPool, cpu_count=lambda: 2))
        ctx.patch(self.sm, 'Pool', SerialPool)

    def stream(self, seed=None):
        if seed is None:
            self.count += 1
            return Stream(self.ctx, 'unseeded %d' % self.count, self.log, self.forks)
        return Stream(self.ctx, key_of(seed), self.log, self.forks)

    def boost(self):
        """Stands in for the compiled samplers, which draw from a generator of their own seed."""
        tw = self

        class Boost:
            def __init__(self, n, theta, seed):
                self.n, self.rng = n, tw.stream(seed)

            def generate_sample(self, size, *a):
                self.out = self.rng.choice([-1, 1], size=(size, self.n))

            def generate_cond_sample(self, ix, v, size, *a):
                self.out = self.rng.choice([-1, 1], size=(size, self.n))

            def fetch_sample(self):
                return self.out.copy()
        self.ctx.patch(self.sm, 'BoostIsing', Boost)
        self.ctx.patch(self.sm, 'BoostPotts3', Boost)
        self.ctx.patch(self.sm, 'IMPORTED_SAMPLERS_EXT', True)

    def generator(self, k):
        """The k-th generator given by the user, in its initial state."""
        if self.ctx.symbolic:
            return Stream(self.ctx, 'given', self.log, self.forks)
        import numpy as np
        return np.random.RandomState(k)

    def same(self, run, label, seeds=SEEDS):
        """run(generator) -> arrays."""
        c = self.ctx
        for k in range(1 if c.symbolic else seeds):
            outs = []
            for i in range(2):
                if not c.symbolic:
                    import numpy as np
                    np.random.seed(1000 * i + k)
                    random.seed(1000 * i + k)
                outs.append(run(self.generator(k)))
            a, b = outs
            c.check(len(a) == len(b), label + ': number of results')
            for p, (x, y) in enumerate(zip(a, b)):
                c.eq(x, y, '%s: result %d is a function of the generator given' % (label, p))


def fresh(tw, calls, label):
    """Successive calls use different draws of the generator given."""
    c = tw.ctx
    if c.symbolic:
        g = tw.generator(0)
        used = []
        for f in calls(g):
            n = len(tw.log)
            f()
            used.append(set(x for x in tw.log[n:]))
        for i in range(len(used)):
            for j in range(i):
                c.check(not used[i] & used[j], label + ': no draw is used twice')
        return
    import numpy as np
    differ = False
    for k in range(40):
        r = [f() for f in calls(np.random.RandomState(k))]
        differ = differ or not np.array_equal(r[0], r[1])
    c.check(differ, label + ': no draw is used twice')


def energy(ctx, flat):
    if flat == 'slope':
        return lambda s, th: ctx.np.array([ctx.frac(sum(int(ctx.concrete(x)) for x in row)) for row in s])
    e = ctx.real('e')

    def calc_e(s, th):
        return ctx.np.array([e if flat or int(ctx.concrete(row[0])) == int(ctx.concrete(row[-1])) else ctx.frac(0) for row in s])
    return calc_e


def make(tw, which, n, g, boost, flat=False):
    ctx = tw.ctx
    m = n * (n + 1) // 2 if which == 'Metropolis' else 3 * n + n * (n - 1) // 2
    th = ctx.reals('theta', m)
    kw = {'n_cpus': 2} if which == 'Potts3' else {'iprint': False}
    return getattr(tw.sm, which)(n, th, calc_e=None if boost else energy(ctx, flat), rng=g, boost=boost, **kw)


def call(s, kind, sysm, size, init, burn=None):
    kw = dict(n_iters=1, burn_in=(1 if sysm or kind == 'serial' else 0) if burn is None else burn, systematic_iter=sysm)
    if init is not None:
        kw['initial_sample'] = init.copy()
    if kind == 'serial':
        s.generate_sample(size, **kw)
    elif kind == 'parallel':
        s.generate_sample_parallel(size, **kw)
    else:
        s.generate_cond_sample(size, [(0, 1)], parallel=kind == 'cond parallel', **kw)
    return s.sample.copy()


KINDS = [(w, k, sy) for w, k in (('Metropolis', 'serial'), ('Metropolis', 'parallel'), ('Metropolis', 'cond'),
                                 ('Potts3', 'serial')) for sy in (False, True)]


@R.harness(encodes=[S + c + f for c in ('Metropolis.', 'Potts3.') for f in
                    ('__init__', 'generate_sample', 'generate_sample_py', 'generate_sample_parallel', 'generate_sample_parallel_py',
                     'generate_cond_sample', 'generate_cond_sample_py', 'sample_metropolis', 'random_sample')], max_paths=20000,
           bound='2 spins (conditional 3), one step, after one step of burn-in for systematic and serial sampling; Python samplers with an arbitrary energy '
           'function, 2 workers; every value of every draw',
           cases=[dict(which=w, kind=k, sysm=sy) for w, k, sy in KINDS])
def python_samplers(ctx, which, kind, sysm):
    tw = Twice(ctx, True)
    n = 3 if kind.startswith('cond') else 2
    size = 1 if kind == 'serial' else 2

    def run(g):
        s = make(tw, which, n, g, False)
        if kind == 'serial':
            return [call(s, kind, sysm, size, None), s.E]
        return [call(s, kind, sysm, size, None)]
    tw.same(run, '%s %s' % (which, kind))


@R.harness(encodes=[S + c + f for c in ('Metropolis.', 'Potts3.') for f in
                    ('__init__', 'generate_sample_boost', 'generate_sample_parallel_boost', 'generate_cond_sample_boost')],
           bound='3 spins, two calls with up to 5 samples, 2 workers; the compiled sampler is a function of its seed',
           cases=[dict(which=w, kind=k) for w, k in (('Metropolis', 'serial'), ('Metropolis', 'parallel'), ('Metropolis', 'cond'),
                                                     ('Metropolis', 'cond parallel'), ('Potts3', 'serial'), ('Potts3', 'parallel'))])
def compiled_samplers(ctx, which, kind):
    tw = Twice(ctx)

    def run(g):
        s = make(tw, which, 3, g, True)
        return [call(s, kind, False, 5, None) for _ in range(2)]
    tw.same(run, '%s %s' % (which, kind))

    def calls(g):
        s = make(tw, which, 3, g, True)
        return [lambda: call(s, kind, False, 5, None)] * 2
    fresh(tw, calls, '%s %s' % (which, kind))


@R.harness(encodes=[S + 'WolffIsing.' + f for f in ('generate_sample', 'generate_sample_parallel', 'one_step', 'build_cluster', 'find_neighbors')],
           max_paths=20000, bound='2 spins, 2 (in parallel) or 1 sample of one step from random or given states, every value of every draw',
           cases=[dict(par=p, init=i) for p in (False, True) for i in (False, True)])
def wolff(ctx, par, init):
    tw = Twice(ctx, True)
    it = tw.sm.iterate_neighbors
    ctx.patch(tw.sm, 'iterate_neighbors', getattr(it, 'py_func', it))
    h, J = ctx.reals('h', 2), ctx.reals('J', 1)
    S_ = 2 if par else 1

    def run(g):
        w = tw.sm.WolffIsing(J, h)
        w.rng = g
        kw = {'initialSample': ctx.array([[1., 1.], [1., -1.]][:S_])} if init else {}
        return [w.generate_sample_parallel(S_, 1, **kw) if par else w.generate_sample(S_, 1, **kw)]
    tw.same(run, 'Wolff')


@R.harness(encodes=[S + 'Metropolis.generate_sample_py', S + 'Potts3.sample_metropolis'], max_paths=20000,
           bound='2 spins, two successive calls', cases=[dict(which=w, kind=k) for w, k in (
               ('Metropolis', 'serial'), ('Metropolis', 'parallel'), ('Potts3', 'serial'))])
def python_samplers_advance(ctx, which, kind):
    tw = Twice(ctx, True)

    def calls(g):
        s = make(tw, which, 2, g, False, True)
        return [lambda: call(s, kind, False, 1 if kind == 'serial' else 2, None)] * 2
    fresh(tw, calls, '%s %s' % (which, kind))


class Replica:
    """Stands in for the Metropolis sampler of a replica (its own reproducibility is decided above)."""
    tw = None

    def __init__(self, n, theta, calc_e=None, rng=None, **kw):
        self.n, self.theta, self.rng = n, theta, rng
        if rng is None:
            self.rng = Replica.tw.stream() if Replica.tw.ctx.symbolic else __import__('numpy').random.RandomState()
        self.sample = self._samples = self.E = None

    def update_parameters(self, theta):
        self.theta = theta

    def generate_sample(self, size, n_iters=1, **kw):
        self.sample = self.rng.choice([-1, 1], size=(size, self.n))
        self._samples = self.sample.copy()
        c = Replica.tw.ctx
        self.E = Replica.tw.ctx.np.array([self.theta[0]] * size)
    generate_sample_parallel = generate_sample


@R.harness(encodes=[S + 'ParallelTempering.' + f for f in ('__init__', 'setup_replicas', 'burn_in_replicas', 'burn_and_exchange',
                                                            'generate_sample')], max_paths=20000,
           bound='2 and 3 replicas of 2 spins, up to 2 samples; temperatures not optimised; replicas are functions of their generator',
           cases=[dict(R_=2, size=1), dict(R_=2, size=2), dict(R_=3, size=1)])
def tempering(ctx, R_, size):
    tw = Twice(ctx)
    Replica.tw = tw
    ctx.patch(tw.sm, 'Metropolis', Replica)
    ctx.patch(tw.sm.ParallelTempering, 'optimize_beta', lambda self, *a, **k: None)
    th = ctx.reals('theta', 3)

    def run(g):
        p = tw.sm.ParallelTempering(2, th, lambda s, t: None, R_, rng=g, Tbds=(1., 4.))
        p.generate_sample(size)
        return [x.copy() for x in p.sample]
    tw.same(run, 'parallel tempering')

    def calls(g):
        p = tw.sm.ParallelTempering(2, th, lambda s, t: None, R_, rng=g, Tbds=(1., 4.))

        def go():
            p.generate_sample(size)
            return __import__('numpy').concatenate(p.sample) if not ctx.symbolic else None
        return [go, go]
    fresh(tw, calls, 'parallel tempering')
    if ctx.symbolic:
        p = tw.sm.ParallelTempering(2, th, lambda s, t: None, R_, rng=tw.generator(0), Tbds=(1., 4.))
        keys = [getattr(r.rng, 'key', None) for r in p.replicas]
        ctx.check(len(set(keys)) == len(keys) or len(set(map(id, [r.rng for r in p.replicas]))) == 1, 'replicas draw independently')
    else:
        import numpy as np
        for k in range(SEEDS):
            p = tw.sm.ParallelTempering(3, ctx.reals('theta3', 6), lambda s, t: None, R_, rng=np.random.RandomState(k))
            p.generate_sample(30)
            ctx.check(not all(np.array_equal(p.sample[0], x) for x in p.sample[1:]), 'replicas draw independently')


SOLVERS = ('Enumerate', 'SparseEnumerate', 'MPF', 'MCH', 'Pseudo', 'ClusterExpansion', 'RegularizedMeanField')


@R.harness(encodes=['coniii.models.' + f for f in ('Model.setup_sampler', 'Model.set_rng', 'Model.generate_sample', 'Ising.__init__',
                                                   'Triplet.__init__', 'Potts3.__init__')] + ['coniii.solvers.Solver.basic_setup'] + ['coniii.solvers.%s.__init__' % c for c in SOLVERS],
           bound='models of 3 spins, generator given to the constructor, to the solver or by set_rng, serial and parallel',
           cases=[dict(model=m, how=h, par=p) for m in ('Ising', 'Triplet', 'Potts3') for h in ('init', 'set') for p in (False, True)
                  ] + [dict(model='Ising', how=h, par=False) for h in ('size', 'sample')])
def models(ctx, model, how, par):
    tw = Twice(ctx)
    mo = ctx.lib('models')
    if model == 'Triplet':
        Replica.tw = tw
        ctx.patch(mo, 'Metropolis', Replica)
    n = 3
    sizes = {'Ising': [3, 3], 'Triplet': [3, 3, 1], 'Potts3': [9, 3]}[model]
    th = ctx.reals('theta', sum(sizes))
    th = [th[:sizes[0]], th[sizes[0]:sizes[0] + sizes[1]]] + ([th[-1:]] if model == 'Triplet' else [])

    def get(g, solver):
        if solver:
            so = ctx.lib('solvers')
            given = n if how == 'size' else ctx.array([[1., 1., -1.], [-1., 1., 1.], [-1., -1., -1.]])
            m = getattr(so, solver)(given, rng=g, n_cpus=2, iprint=False, **({'parameter_ix': ctx.np.array([0, 3])} if solver[0] == 'S' else {})).model
        else:
            m = getattr(mo, model)(th, rng=g if how == 'init' else None, n_cpus=2)
        m.setup_sampler(sampler_kwargs={'n_cpus': 2} if model == 'Potts3' else {'iprint': False})
        if how == 'set':
            m.set_rng(g)
        return m

    def run(g, solver=None):
        m = get(g, solver)
        out = []
        for _ in range(2):
            m.generate_sample(2, 2, sample_size=4, parallel=par)
            out.append(m.sample.copy())
        return out
    if how in ('size', 'sample'):
        for c in SOLVERS:
            tw.same(lambda g: run(g, c), c, 1)
    else:
        tw.same(run, model)


@R.harness(encodes=['coniii.ising.automaton.Ising2D.__init__'], bound='initial lattices of 2x2 and 2x3 sites', cases=[dict(d=(2, 2)), dict(d=(2, 3))])
def lattice(ctx, d):
    tw = Twice(ctx)
    au = ctx.lib('ising.automaton')
    J = ctx.real('J')
    tw.same(lambda g: [au.Ising2D(d, J, rng=g).lattice], 'initial lattice')
