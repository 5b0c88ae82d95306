"""C29: helpers of the samplers: Heisenberg energies and gradients, energies against frequencies, easy Ising sampling."""
from itertools import combinations, product
from vf.engine import Registry

R = Registry()
S = 'coniii.samplers.'


def spin(ctx, t, p):
    np = ctx.np
    return [np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)]


@R.harness(encodes=[S + 'calc_e', S + 'grad_e', S + 'grad_e_theta'], bound='2..5, 9 spins (thorough 6, 7), all angles and couplings (sin and cos uninterpreted)', tol=1e-6,
           cases=[dict(n=2), dict(n=3), dict(n=4), dict(n=5), dict(n=9)], thorough=[dict(n=6), dict(n=7)])
def heisenberg(ctx, n):
    sm = ctx.lib('samplers')
    J, x = ctx.reals('J', n * (n - 1) // 2), ctx.reals('x', 2 * n)
    J0, x0 = J.copy(), x.copy()
    v = [spin(ctx, x[2 * i], x[2 * i + 1]) for i in range(n)]
    E = sm.calc_e(J, x)
    ctx.eq(E, -ctx.sum([J[q] * ctx.sum([a * b for a, b in zip(v[i], v[j])]) for q, (i, j) in enumerate(combinations(range(n), 2))]), 'energy')
    g, gt = sm.grad_e(J, x), sm.grad_e_theta(J, x)
    ctx.check(tuple(g.shape) == (2 * n,) and tuple(gt.shape) == tuple(J.shape), 'shapes')
    ctx.gradient_check(lambda y: sm.calc_e(J, y), x, g, 'gradient by angles')
    ctx.gradient_check(lambda y: sm.calc_e(y, x), J, gt, 'gradient by couplings')
    ctx.eq(J, J0, 'couplings unchanged')
    ctx.eq(x, x0, 'angles unchanged')


@R.harness(encodes=[S + 'check_e_logp', 'coniii.utils.unique_rows'], max_paths=20000,
           bound='up to 3 samples of 2 spins and 2 of 3 spins (thorough 4 of 2), every sample, all energies',
           cases=[dict(n=1, K=2, dom=(-1, 1)), dict(n=2, K=1, dom=(-1, 1)), dict(n=2, K=2, dom=(0, 1)), dict(n=2, K=3, dom=(-1, 1)),
                  dict(n=3, K=2, dom=(0, 1)), dict(n=2, K=2, dom=(0, 1, 2))], thorough=[dict(n=2, K=4, dom=(-1, 1)), dict(n=3, K=3, dom=(0, 1))])
def frequencies(ctx, n, K, dom):
    """Every state found in the sample once, with its energy and the logarithm of its frequency."""
    ctx.exact_logs()
    sm = ctx.lib('samplers')
    rows = [tuple(ctx.choice('s%d%d' % (k, i), dom) for i in range(n)) for k in range(K)]
    X = ctx.np.array([list(r) for r in rows])
    E = {s: ctx.real('E%s' % (s,)) for s in product(dom, repeat=n)}
    key = lambda r: tuple(int(ctx.concrete(v)) for v in r)
    st, e, lp = sm.check_e_logp(X, lambda Y: ctx.np.array([E[key(y)] for y in Y]))
    ctx.eq(X, ctx.np.array([list(r) for r in rows]), 'sample unchanged')
    got = [key(r) for r in st]
    ctx.check(sorted(got) == sorted(set(rows)), 'states of the sample')
    ctx.check(len(e) == len(got) and len(lp) == len(got), 'sizes')
    for i, s in enumerate(got):
        ctx.eq(e[i], E[s], 'energy')
        ctx.eq(ctx.exp(lp[i]), ctx.frac(rows.count(s), K), 'frequency')


class Recorder:
    """Stands in for the Metropolis sampler."""
    made = []

    def __init__(self, n, theta, calc_e=None, rng=None, **kw):
        self.n, self.theta, self.calc_e, self.rng, self.calls = n, theta, calc_e, rng, []
        Recorder.made.append(self)

    def generate_sample(self, sample_size, **kw):
        self.calls.append(('serial', sample_size, kw))
        self.sample = object()

    def generate_sample_parallel(self, sample_size, **kw):
        self.calls.append(('parallel', sample_size, kw))
        self.sample = object()


@R.harness(encodes=[S + 'sample_ising', 'coniii.utils.define_ising_helper_functions.calc_e'], bound='1..4 spins, all parameters given as a vector, list or pair, all seeds', max_paths=2000,
           cases=[dict(n=n, form=f, parallel=p) for n, f, p in ((1, 'vector', False), (2, 'vector', True), (3, 'pair', False), (3, 'list', True),
                                                                  (4, 'vector', False), (2, 'pair', True))])
def sample_ising(ctx, n, form, parallel):
    sm = ctx.lib('samplers')
    Recorder.made = []
    ctx.patch(sm, 'Metropolis', Recorder)
    ctx.script_random(sm)
    m = n * (n - 1) // 2
    th = ctx.reals('theta', n + m)
    keep = th.copy()
    arg = {'vector': th, 'list': list(th), 'pair': (th[:n], th[n:])}[form]
    before = len(ctx.seeds)
    kw = dict(n_iters=7, systematic_iter=True)
    seed = ctx.choice('seed', (0, 1, 11, 2**32 - 1))
    out = sm.sample_ising(arg, 5, seed=seed, parallel=parallel, generate_sample_kw=kw)
    ctx.check(len(Recorder.made) == 1, 'one sampler')
    s = Recorder.made[0]
    ctx.check(out is s.sample and s.calls == [('parallel' if parallel else 'serial', 5, dict(n_iters=7, systematic_iter=True))], 'sample requested')
    made = list(ctx.seeds[before:])
    ctx.check(s.n == n and s.rng is not None and len(made) == 1 and made[0] is not None, 'one generator')
    ctx.eq(made[0], seed, 'generator with the given seed')
    ctx.eq(s.theta, keep, 'parameters')
    st = ctx.np.array([[ctx.choice('s%d' % i, (-1, 1)) for i in range(n)]])
    e = s.calc_e(st, s.theta)
    ctx.eq(e[0], -ctx.sum([keep[i] * st[0, i] for i in range(n)]) - ctx.sum(
        [keep[n + q] * st[0, i] * st[0, j] for q, (i, j) in enumerate(combinations(range(n), 2))]), 'energy')
    ctx.eq(th, keep, 'argument unchanged')


@R.harness(encodes=[S + 'sample_ising'], bound='vectors of 1..30 parameters', cases=[dict()])
def sizes(ctx):
    sm = ctx.lib('samplers')
    Recorder.made = []
    ctx.patch(sm, 'Metropolis', Recorder)
    ctx.script_random(sm)
    good = {n + n * (n - 1) // 2: n for n in range(1, 8)}
    for k in range(1, 31):
        if k == 2:
            continue    # a pair of vectors
        f = lambda: sm.sample_ising(ctx.np.zeros(k), 1, parallel=False)
        if k in good:
            f()
            ctx.check(Recorder.made[-1].n == good[k], 'number of spins')
        else:
            ctx.raises(f, Exception, '%d parameters' % k)
