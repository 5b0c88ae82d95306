"""C16: parallel tempering keeps replicas at their temperatures and exchanges them with the right probability."""
import numpy as np

from vf.engine import Registry
from vf.lift import SerialPool

R = Registry()
S = 'coniii.samplers.'
P = S + 'ParallelTempering.'


class Replica:
    """Stands in for a Metropolis sampler: every run ends in an arbitrary state with an arbitrary energy."""
    ctx, count, log = None, 0, []

    def __init__(self, n, theta, calc_e=None, **kw):
        self.n, self.theta, self.calc_e, self.kw = n, theta, calc_e, kw
        self.sample = self._samples = self.E = None
        self.k = Replica.count
        Replica.count += 1

    def generate_sample(self, sample_size, n_iters=1000, burn_in=None, systematic_iter=False, **kw):
        c = Replica.ctx
        r = len(Replica.log)
        Replica.log.append((self.k, sample_size, n_iters, systematic_iter, self.theta.copy()))
        self.sample = c.ints('state%d' % r, (1, self.n), (-1, 1))
        self._samples = self.sample.copy()
        self.E = c.reals('energy%d' % r, 1)


def make(ctx, R_, n=2, beta=None, stub=True, **kw):
    sm = ctx.lib('samplers')
    Replica.ctx, Replica.count, Replica.log = ctx, 0, []
    ctx.patch(sm, 'Metropolis', Replica)
    ctx.patch(sm, 'Pool', SerialPool)
    if stub:
        ctx.patch(sm.ParallelTempering, 'optimize_beta', lambda self, *a, **k: None)
    th = ctx.reals('theta', n * (n + 1) // 2)
    e = lambda s, t: None
    p = sm.ParallelTempering(n, th, e, R_, rng=ctx.rng(), **kw)
    if beta is not None:
        p.beta = beta
        p.update_replica_parameters()
    return sm, p, th


def betas(ctx, k):
    b = ctx.reals('beta', k)
    if not ctx.symbolic:
        b = np.sort(np.abs(b))
    ctx.assume(ctx.lt_(0, b[0]))
    for i in range(1, k):
        ctx.assume(ctx.lt_(b[i - 1], b[i]))
    return b


def at_temperatures(ctx, p, th, beta):
    for i, r in enumerate(p.replicas):
        for j in range(th.size):
            ctx.eq(r.theta[j], th[j] * beta[i], 'replica %d runs at its temperature' % i)


@R.harness(encodes=[P + f for f in ('__init__', 'setup_replicas', 'initialize_beta', 'burn_in_replicas')],
           bound='2, 3, 5 replicas, temperature ranges (1,4) and (1/2,4), all real parameters',
           cases=[dict(R_=r, T=t, burn=b) for r in (2, 3, 5) for t, b in (((1, 4), None), ((.5, 4.), 7))])
def construct(ctx, R_, T, burn):
    kw = {} if burn is None else {'replica_burnin': burn, 'rep_ex_burnin': burn + 1}
    sm, p, th = make(ctx, R_, Tbds=T, **kw)
    ctx.check(len(p.replicas) == R_ and len(p.beta) == R_, 'number of replicas')
    lo, hi = ctx.frac(1) / T[1], ctx.frac(1) / T[0]
    if not ctx.symbolic:
        lo, hi = 1 / T[1], 1 / T[0]
    for i in range(R_):
        ctx.eq(p.beta[i], lo + (hi - lo) * i / (R_ - 1), 'inverse temperature %d' % i)
    at_temperatures(ctx, p, th, p.beta)
    ctx.check([r.index for r in p.replicas] == list(range(R_)), 'replicas numbered')
    for r in p.replicas:
        ctx.check(r.calc_e is p.calc_e and r.n == 2, 'energy and size of the replicas')
    last = {}
    for k, size, n_iters, sy, t in Replica.log:
        ctx.check((size, n_iters) == (1, burn or 100), 'burn in of the replicas')
        last[k] = n_iters
    ctx.check(sorted(last) == list(range(R_)), 'every replica burned in')
    ctx.check(p.repExBurnin == (20 if burn is None else burn + 1), 'steps between exchanges')


@R.harness(encodes=[P + f for f in ('__init__', 'setup_replicas', 'optimize_beta', 'iterate_beta', 'burn_in_replicas',
                                    'update_replica_parameters')],
           bound='2, 3 replicas made with the temperature optimisation, for two patterns of acceptance ratios, all real '
           'parameters', cases=[dict(R_=r, pat=k) for r in (2, 3) for k in ((1,), (1, 2), (2, 1, 2))], tol=1e-5)
def ready(ctx, R_, pat):
    """After construction every replica has been run at the temperature it has then."""
    sm = ctx.lib('samplers')
    asked = []

    def acc(self, n_samples, n_iters, pairs=None):
        k = pat[len(asked)] if len(asked) < len(pat) else 1
        asked.append(1)
        return ctx.np.array([ctx.frac(1, 2)] + [ctx.frac(1, 2 * k)] * (R_ - 2))
    ctx.patch(sm.ParallelTempering, '_acceptance_ratio', acc)
    sm, p, th = make(ctx, R_, Tbds=(1, 4), stub=False)
    ctx.check(len(asked) > 0, 'temperatures optimised')
    at_temperatures(ctx, p, th, p.beta)
    for i, r in enumerate(p.replicas):
        last = [x for x in Replica.log if x[0] == r.k][-1]
        for j in range(th.size):
            ctx.eq(last[4][j], th[j] * p.beta[i], 'replica %d last run at its temperature' % i)


def prob(ctx, bi, bj, ei, ej):
    """Exchange probability of replicas with unscaled energies ei, ej (logarithm)."""
    return (bi - bj) * (ei - ej)


@R.harness(encodes=[P + 'burn_and_exchange', P + '_acceptance_ratio', P + 'update_replica_parameters'],
           bound='2, 3 replicas (thorough 4), all increasing inverse temperatures, all energies, states and uniform draws; up to 2 '
           'rounds (2 replicas)', cases=[dict(R_=2, rounds=1), dict(R_=3, rounds=1), dict(R_=2, rounds=2)],
           thorough=[dict(R_=4, rounds=1)], tol=1e-5)
def exchange(ctx, R_, rounds):
    b = betas(ctx, R_)
    sm, p, th = make(ctx, R_, beta=b.copy())
    idx = list(range(R_))
    for _ in range(rounds):
        k0, d0 = len(Replica.log), len(ctx.draws)
        p.burn_and_exchange(SerialPool())
        log = Replica.log[k0:]
        ctx.check(sorted(x[0] for x in log) == list(range(R_)), 'every replica advanced once')
        us = [d[1] for d in ctx.draws[d0:] if d[0] == 'u']
        ctx.check(len(us) == R_ - 1, 'one draw per pair')
        at = []
        for i in range(R_):
            k = k0 + [x[0] for x in log].index(i)
            ctx.check(Replica.log[k][1:3] == (1, 20), 'steps before the exchange')
            for j in range(th.size):
                ctx.eq(Replica.log[k][4][j], th[j] * b[i], 'advanced at its temperature')
            s = ctx.ints('state%d' % k, (1, 2), (-1, 1))
            e = ctx.reals('energy%d' % k, 1)[0] / b[i]
            at.append((s, e, idx[i]))
        for i in range(R_ - 1):
            w = prob(ctx, b[i], b[i + 1], at[i][1], at[i + 1][1])
            if ctx.branch(ctx.or_(ctx.le_(0, w), ctx.lt_(us[i], ctx.exp(w)))):
                at[i], at[i + 1] = at[i + 1], at[i]
        idx = [a[2] for a in at]
        ctx.eq(p.beta, b, 'temperatures unchanged')
        at_temperatures(ctx, p, th, b)
        for i, (s, e, ix) in enumerate(at):
            r = p.replicas[i]
            for j in range(2):
                ctx.eq(r.sample[0, j], s[0, j], 'state at temperature %d' % i)
                ctx.eq(r._samples[0, j], s[0, j], 'state to continue from at temperature %d' % i)
            ctx.eq(r.E[0], e * b[i], 'energy at temperature %d' % i)
            ctx.check(r.index == ix, 'label at temperature %d' % i)


@R.harness(encodes=[P + 'generate_sample', P + 'burn_and_exchange'],
           bound='2, 3 replicas, up to 2 samples, all energies, states and draws, with and without trajectory',
           cases=[dict(R_=2, N=2, traj=True), dict(R_=2, N=1, traj=False), dict(R_=3, N=1, traj=True),
                  dict(R_=2, N=2, traj=False)], tol=1e-5)
def record(ctx, R_, N, traj):
    b = betas(ctx, R_)
    sm, p, th = make(ctx, R_, beta=b.copy())
    seen = []
    real = sm.ParallelTempering.burn_and_exchange

    def watch(self, pool):
        r = real(self, pool)
        seen.append([(x.sample.copy(), x.index) for x in self.replicas])
        return r
    ctx.patch(sm.ParallelTempering, 'burn_and_exchange', watch)
    h = p.generate_sample(N, save_exchange_trajectory=True) if traj else p.generate_sample(N)
    ctx.check(len(seen) == N, 'one exchange round per sample')
    ctx.check(len(p.sample) == R_, 'one sample per temperature')
    for j in range(R_):
        ctx.check(tuple(p.sample[j].shape) == (N, 2), 'shape of the sample')
        for i in range(N):
            for k in range(2):
                ctx.eq(p.sample[j][i, k], seen[i][j][0][0, k], 'sample %d at temperature %d' % (i, j))
            if traj:
                ctx.check(int(h[i, j]) == seen[i][j][1], 'trajectory')


@R.harness(encodes=[P + '_acceptance_ratio', P + 'burn_in_replicas'], bound='3 replicas, up to 2 averaged samples, all energies',
           cases=[dict(N=1, it=0, pairs=None), dict(N=1, it=5, pairs=None), dict(N=2, it=5, pairs=[(0, 1)]),
                  dict(N=1, it=0, pairs=[(1, 2)]), dict(N=1, it=0, pairs=[(0, 2), (0, 1)])], tol=1e-5)
def acceptance(ctx, N, it, pairs):
    b = betas(ctx, 3)
    sm, p, th = make(ctx, 3, beta=b.copy())
    k0 = len(Replica.log)
    e = [r.E[0] / b[i] for i, r in enumerate(p.replicas)]
    a = p._acceptance_ratio(N, it) if pairs is None else p._acceptance_ratio(N, it, pairs=pairs)
    pairs = pairs or [(0, 1), (1, 2)]
    log = Replica.log[k0:]
    ctx.check(len(log) == (3 * N if it else 0) and all(x[2] == it for x in log), 'replicas advanced between samples')
    ctx.check(a.size == len(pairs), 'one value per pair')
    for k, (i, j) in enumerate(pairs):
        tot = 0
        for s in range(N):
            if it:
                e = [ctx.reals('energy%d' % (k0 + 3 * s + q), 1)[0] / b[q] for q in range(3)]
            w = prob(ctx, b[i], b[j], e[i], e[j])
            tot = tot + ctx.ite(ctx.le_(0, w), 1, ctx.exp(w))
        ctx.eq(a[k] * N, tot, 'acceptance of pair %s' % ((i, j),))


@R.harness(encodes=[P + 'iterate_beta'], bound='2..5 replicas, all inverse temperatures and acceptance ratios',
           cases=[dict(R_=r) for r in (2, 3, 4, 5)])
def iterate(ctx, R_):
    sm = ctx.lib('samplers')
    b = betas(ctx, R_)
    a = ctx.reals('acc', R_ - 1)
    for x in a:
        ctx.assume(ctx.and_(ctx.le_(0, x), ctx.le_(x, 1)))
    tot = ctx.sum(list(a))
    ctx.assume(ctx.lt_(ctx.frac(1, 1000), tot))
    b0, a0 = b.copy(), a.copy()
    c = sm.ParallelTempering.iterate_beta(b, a)
    ctx.check(len(c) == R_, 'number of temperatures')
    ctx.eq(c[R_ - 1], b0[R_ - 1], 'lowest temperature kept')
    for i in range(1, R_):
        ctx.eq((c[i] - c[i - 1]) * tot, (b0[i] - b0[i - 1]) * a0[i - 1] * (R_ - 1),
               'spacing %d scaled by its relative acceptance' % i)
    ctx.eq(b, b0, 'input unchanged')
    ctx.eq(a, a0, 'acceptance unchanged')


@R.harness(encodes=[P + 'optimize_beta', P + 'iterate_beta', P + 'update_replica_parameters'],
           bound='2, 3 replicas, up to 2 rounds, all acceptance ratios and tolerances', max_paths=3000,
           cases=[dict(R_=2, rounds=1), dict(R_=3, rounds=1), dict(R_=3, rounds=2), dict(R_=2, rounds=3)])
def optimise(ctx, R_, rounds):
    sm = ctx.lib('samplers')
    real = sm.ParallelTempering.optimize_beta
    b = betas(ctx, R_)
    sm, p, th = make(ctx, R_, beta=b.copy())
    asked = []

    def acc(self, n_samples, n_iters, pairs=None):
        a = ctx.reals('acc%d' % len(asked), R_ - 1)
        for x in a:
            ctx.assume(ctx.and_(ctx.lt_(ctx.frac(1, 1000), x), ctx.le_(x, 1)))
        asked.append((n_samples, n_iters, self.beta.copy(), [r.theta.copy() for r in self.replicas], a))
        return a.copy()
    ctx.patch(sm.ParallelTempering, '_acceptance_ratio', acc)
    tol = ctx.real('tol', pos=True)
    real(p, 4, 9, tol=tol, max_iter=rounds)
    ctx.check(1 <= len(asked) <= rounds, 'number of rounds')
    cur = list(b)
    for k, (ns, ni, be, ths, a) in enumerate(asked):
        ctx.check((ns, ni) == (4, 9), 'sampling arguments')
        for i in range(R_):
            ctx.eq(be[i], cur[i], 'round %d at the current temperatures' % k)
            for j in range(th.size):
                ctx.eq(ths[i][j], th[j] * cur[i], 'replica %d at its temperature in round %d' % (i, k))
        tot = ctx.sum(list(a))
        new = list(cur)
        for i in range(R_ - 1, 0, -1):
            new[i - 1] = new[i] - (cur[i] - cur[i - 1]) * a[i - 1] * (R_ - 1) / tot
        ch = ctx.sum([ctx.ite(ctx.lt_(0, x - y), x - y, y - x) for x, y in zip(cur, new)]) / R_
        cur = new
        if k < len(asked) - 1:
            ctx.check(ctx.lt_(tol, ch), 'goes on while the temperatures change')
        elif len(asked) < rounds:
            ctx.check(ctx.le_(ch, tol), 'stops early only once the temperatures settle')
    for i in range(R_):
        ctx.eq(p.beta[i], cur[i], 'final temperature %d' % i)
    at_temperatures(ctx, p, th, cur)
