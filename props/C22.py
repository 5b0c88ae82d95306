"""C22: models hold the parameters they were given and pass them to energies, equations and samplers."""
from itertools import combinations
from vf.engine import Registry
from props.C01 import boltzmann, join_branches, observables, terms_upto

R = Registry()
M = 'coniii.models.'


def prod(ctx, xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def numbers(ctx, name, n, whole=False):
    return ctx.ints(name, n, (-2, -1, 0, 1)) if whole else ctx.reals(name, n)


def given(ctx, form, n, whole=False):
    """Multipliers in the given form; returns (argument, expected vector)."""
    nc = n * (n - 1) // 2
    if form == 'int':
        return n, ctx.np.zeros(n + nc)
    if form == 'matrix':
        pr = list(combinations(range(n), 2))
        v = numbers(ctx, 'p', n + nc, whole)
        A = ctx.np.zeros((n, n), dtype=int) if whole else ctx.np.zeros((n, n))
        for i in range(n):
            A[i, i] = v[i]
        for k, (i, j) in enumerate(pr):
            A[i, j] = v[n + k]
            A[j, i] = v[n + k]
        return A, v
    if form == 'vector':
        v = numbers(ctx, 'p', n + nc, whole)
        return v, v.copy()
    h, J = numbers(ctx, 'h', n, whole), numbers(ctx, 'J', nc, whole)
    w = ctx.np.concatenate([h, J])
    return ([h, J] if form == 'list' else (h, J)), w


@R.harness(encodes=[M + 'Ising.__init__', M + 'Ising.set_multipliers'],
           bound='n = 2..6 spins (thorough 10), every input format, all real parameters',
           cases=[dict(form=f, n=n) for f in ('int', 'list', 'tuple', 'vector', 'matrix') for n in (2, 3, 4, 6)] +
           [dict(form=f, n=3, whole=True) for f in ('list', 'vector', 'matrix')],
           thorough=[dict(form=f, n=n) for f in ('int', 'list', 'tuple', 'vector', 'matrix') for n in (5, 9, 10)])
def ising_formats(ctx, form, n, whole=False):
    mo = ctx.lib('models')
    arg, want = given(ctx, form, n, whole)
    keep = arg.copy() if form in ('vector', 'matrix') else None
    rng = ctx.rng()
    m = mo.Ising(arg, rng=rng, n_cpus=3)
    ctx.check(m.n == n, 'system size')
    ctx.check(m.multipliers.size == want.size, 'number of parameters')
    for i in range(want.size):
        ctx.eq(m.multipliers[i], want[i], 'parameter %d' % i)
    ctx.check(m.rng is rng and m.nCpus == 3, 'generator and number of workers kept')
    if keep is not None:
        ctx.eq(arg, keep, 'input unchanged')
    X = ctx.ints('s', (2, n), (-1, 1))
    e = m.calc_e(X, m.multipliers)
    for r in range(2):
        ctx.eq(e[r], -ctx.sum([want[k] * prod(ctx, [X[r, i] for i in t]) for k, t in enumerate(terms_upto(n, 2))]),
               'energy of the model')


@R.harness(encodes=[M + 'Ising.__init__', M + 'Triplet.__init__', M + 'Potts3.__init__'], bound='listed malformed inputs',
           cases=[dict()])
def malformed(ctx):
    mo = ctx.lib('models')
    z = ctx.np.zeros
    for a in (1, 0, -3):
        ctx.raises(lambda: mo.Ising(a), Exception, 'system of %d spins' % a)
    for k in (2, 4, 5, 7, 8, 9, 11):
        ctx.raises(lambda: mo.Ising(z(k)), Exception, 'vector of %d parameters' % k)
    for h, J in ((3, 2), (3, 4), (4, 3), (2, 2)):
        ctx.raises(lambda: mo.Ising([z(h), z(J)]), Exception, '%d fields and %d couplings' % (h, J))
    for h, J, K in ((3, 3, 2), (3, 2, 1), (4, 6, 3)):
        ctx.raises(lambda: mo.Triplet([z(h), z(J), z(K)]), Exception, 'triplet sizes')
    for h, J in ((7, 1), (6, 2), (9, 1), (8, 1)):
        ctx.raises(lambda: mo.Potts3([z(h), z(J)]), Exception, 'Potts sizes')
    for k in (6, 8, 11, 13, 17):
        ctx.raises(lambda: mo.Potts3(z(k)), Exception, 'Potts vector of %d parameters' % k)


@R.harness(encodes=[M + 'Triplet.__init__', M + 'Triplet.set_multipliers'], bound='n = 3..5, 9 spins, all real parameters',
           cases=[dict(n=n) for n in (3, 4, 5, 9)] + [dict(n=3, whole=True)])
def triplet_formats(ctx, n, whole=False):
    mo = ctx.lib('models')
    tm = terms_upto(n, 3)
    p = [numbers(ctx, 'p%d' % o, len(list(combinations(range(n), o))), whole) for o in (1, 2, 3)]
    want = ctx.np.concatenate(p)
    m = mo.Triplet(p)
    ctx.check(m.n == n and m.multipliers.size == len(tm), 'sizes')
    ctx.eq(m.multipliers, want, 'parameters')
    X = ctx.ints('s', (1, n), (-1, 1))
    ctx.eq(m.calc_e(X, m.multipliers)[0], -ctx.sum([want[k] * prod(ctx, [X[0, i] for i in t]) for k, t in enumerate(tm)]),
           'energy')


@R.harness(encodes=[M + 'Potts3.__init__', M + 'Potts3.set_multipliers'], bound='n = 2..5 spins, 10 spins of which 3 are arbitrary, all real parameters',
           cases=[dict(n=n, form=f) for n in (2, 3, 4, 5, 10) for f in ('list', 'vector')] + [dict(n=2, form=f, whole=True) for f in ('list', 'vector')])
def potts_formats(ctx, n, form, whole=False):
    mo = ctx.lib('models')
    h, J = numbers(ctx, 'h', 3 * n, whole), numbers(ctx, 'J', n * (n - 1) // 2, whole)
    want = ctx.np.concatenate([h, J])
    m = mo.Potts3([h, J] if form == 'list' else want.copy())
    ctx.check(m.n == n and m.multipliers.size == want.size, 'sizes')
    ctx.eq(m.multipliers, want, 'parameters')
    X = ctx.ints('s', (1, n), (0, 1, 2))
    for i in range(3, n if n > 5 else 0):
        ctx.assume(ctx.eq_(X[0, i], i * i % 3))
        X[0, i] = i * i % 3
    e = -ctx.sum([ctx.ite(ctx.eq_(X[0, i], k), h[i + n * k], 0) for i in range(n) for k in range(3)] +
                 [ctx.ite(ctx.eq_(X[0, i], X[0, j]), J[c], 0) for c, (i, j) in enumerate(combinations(range(n), 2))])
    ctx.eq(m.calc_e(X, m.multipliers)[0], e, 'energy')


@R.harness(encodes=[M + 'Ising.set_multipliers', M + 'Ising.__init__', M + 'Triplet.set_multipliers'],
           bound='Ising n = 2..4 (thorough 6), triplet n = 5; all real parameters before and after the update', tol=1e-5,
           cases=[dict(kind='Ising', n=n) for n in (2, 3, 4)] + [dict(kind='Triplet', n=5)],
           thorough=[dict(kind='Ising', n=n) for n in (5, 6)])
def exact_averages(ctx, kind, n):
    join_branches(ctx)
    mo = ctx.lib('models')
    tm = terms_upto(n, 2 if kind == 'Ising' else 3)
    k = len(tm)
    a, b, c = ctx.reals('a', k), ctx.reals('b', k), ctx.reals('c', k)
    arg = a
    if kind == 'Triplet':
        cut = [len([t for t in tm if len(t) <= o]) for o in (1, 2)]
        arg = [a[:cut[0]], a[cut[0]:cut[1]], a[cut[1]:]]
    m = getattr(mo, kind)(arg)
    for what, th, args in (('initial parameters', a, ()), ('given parameters', c, (c,)), ('updated parameters', b, ())):
        if what.startswith('upd'):
            m.set_multipliers(b)
            ctx.eq(m.multipliers, b, 'parameters replaced')
        P, C = boltzmann(ctx, list(th), observables(n, True, tm))
        p = m.calc_p(*args)
        o = m.calc_observables(*args)
        ctx.check(len(p) == len(P) and len(o) == len(C), 'sizes')
        for i in range(len(P)):
            ctx.eq(p[i], P[i], '%s: probability %d' % (what, i))
        for i in range(len(C)):
            ctx.eq(o[i], C[i], '%s: average %d' % (what, i))


@R.harness(encodes=[M + 'Potts3.__init__', M + 'Potts3.set_multipliers'],
           bound='n = 2, 3 spins, equation module replaced by an arbitrary function; without equations', cases=[dict(n=2), dict(n=3)])
def potts_equations(ctx, n):
    mo = ctx.lib('models')
    k = 3 * n + n * (n - 1) // 2
    a, b, c = ctx.reals('a', k), ctx.reals('b', k), ctx.reals('c', k)
    m = mo.Potts3(a)
    ctx.check(m.calc_p is None and m.calc_observables is None, 'no exact averages without equations')
    f, g = ctx.real('f'), ctx.real('g')
    class Eqn:
        p = staticmethod(lambda x: x * f)
        calc_observables = staticmethod(lambda x: x * g)
    asked = []
    old = mo.import_module

    def imp(name, package=None):
        asked.append(name)
        return Eqn if name == 'coniii.ising_eqn.ising_eqn_%d_potts' % n else old(name, package)
    ctx.patch(mo, 'import_module', imp)
    m = mo.Potts3(a)
    ctx.check(len(asked) >= 1, 'equations of this size are looked up')
    for th, args in ((a, ()), (c, (c,)), (b, ())):
        if th is b:
            m.set_multipliers(b)
        ctx.eq(m.calc_p(*args), th * f, 'probabilities from the equations')
        ctx.eq(m.calc_observables(*args), th * g, 'averages from the equations')


class FakeSampler:
    def __init__(self, ctx, n, theta, calc_e, kw):
        self.ctx, self.n, self.theta, self.calc_e, self.kw, self.calls = ctx, n, theta, calc_e, kw, []
        self.rng = kw.get('rng')

    def update_parameters(self, theta):
        self.theta = theta

    def _gen(self, kind, size, kw):
        self.calls.append((kind, size, dict(kw), self.theta.copy()))
        self.sample = self.ctx.reals('sample%d' % len(self.calls), (2, 2))

    def generate_sample(self, size, **kw):
        self._gen('serial', size, kw)

    def generate_sample_parallel(self, size, **kw):
        self._gen('parallel', size, kw)


@R.harness(encodes=[M + 'Model.generate_sample', M + 'Model.setup_sampler', M + 'Model.set_rng'],
           bound='Ising, Triplet, Potts3 and user-defined models, serial and parallel sampling, all real parameters',
           cases=[dict(kind=k, par=p, size=s, th=t) for k in ('Ising', 'Triplet', 'Potts3', 'custom')
                  for p, s, t in ((True, None, True), (False, 7, False), (True, 5, False), (False, None, True))])
def sampling(ctx, kind, par, size, th):
    mo = ctx.lib('models')
    built = []

    def make(name):
        def f(n, theta, calc_e=None, **kw):
            s = FakeSampler(ctx, n, theta, calc_e, kw)
            s.kind = name
            built.append(s)
            return s
        return f
    ctx.patch(mo, 'Metropolis', make('metropolis'))
    ctx.patch(mo, 'mcPotts3', make('potts'))
    rng = ctx.rng()
    n = 3
    if kind == 'Ising':
        a = ctx.reals('a', 6)
        m = mo.Ising(a, rng=rng)
    elif kind == 'Triplet':
        p = [ctx.reals('p1', 3), ctx.reals('p2', 3), ctx.reals('p3', 1)]
        a = ctx.np.concatenate(p)
        m = mo.Triplet(p, rng=rng)
    elif kind == 'Potts3':
        a = ctx.reals('a', 12)
        m = mo.Potts3(a, rng=rng)
    else:
        class Mine(mo.Model):
            def calc_e(self, s, x):
                return None
        a = ctx.reals('a', 4)
        m = Mine(a, rng=rng)
        m.n = n
    ctx.raises(lambda: m.setup_sampler(sample_method='nonsense'), NotImplementedError, 'unknown sampling method')
    m.setup_sampler(sample_size=11, sampler_kwargs={'iprint': False})
    s = built[-1]
    ctx.check(m.sampler is s and len(built) == 1, 'one sampler')
    ctx.check(s.kind == ('potts' if kind == 'Potts3' else 'metropolis'), 'sampler of the right kind')
    ctx.check(s.n == n and s.rng is rng and s.kw.get('iprint') is False, 'sampler arguments')
    ctx.eq(s.theta, a, 'sampler starts at the model parameters')
    X = ctx.ints('s', (1, n), (0, 1) if kind == 'Potts3' else (-1, 1))
    if kind != 'custom':
        ctx.eq(s.calc_e(X, a), m.calc_e(X, a), 'sampler uses the energy of the model')
    ctx.check(m.sample is None and m.sampleSize == 11, 'no sample yet')
    # first with the parameters of the model (or given ones), then after an update
    want = a
    kw = {}
    if th:
        want = kw['multipliers'] = ctx.reals('b', a.size)
    m.generate_sample(13, 17, sample_size=size, parallel=par, generate_kwargs={'systematic_iter': True}, **kw)
    ctx.eq(m.multipliers, a, 'sampling leaves the parameters of the model')
    if kind != 'custom':
        c = ctx.reals('c', a.size)
        m.set_multipliers(c)
        m.generate_sample(13, 17, sample_size=size, parallel=par)
    ctx.check(len(s.calls) == (1 if kind == 'custom' else 2), 'one sampling run per call')
    for k, (how, sz, kk, theta) in enumerate(s.calls):
        ctx.check(how == ('parallel' if par else 'serial'), 'serial or parallel')
        ctx.check(sz == (size or 11), 'sample size')
        ctx.check(kk.get('n_iters') == 13 and kk.get('burn_in') == 17, 'iterations')
        ctx.check(kk.get('systematic_iter', None) == (True if k == 0 else None), 'further arguments')
        ctx.eq(theta, c if k else want, 'parameters sampled in run %d' % k)
    ctx.eq(m.sample, s.sample, 'sample kept')
    r2 = ctx.rng()
    m.set_rng(r2)
    ctx.check(m.rng is r2 and s.rng is r2, 'generator replaced')
