"""C14: the compiled Potts sampler computes the energy and steps by the Metropolis rule."""
from itertools import combinations
from vf.engine import Registry
from vf import cxx
from props.C13 import rule, unit

R = Registry()
R.assumptions = ['the C++ is compiled to LLVM IR with stand-in headers for Boost.Python; random distributions return '
                 'arbitrary values of their range']
P = 'cpp/samplers.cpp:Potts3::'
cxx.prepare()


def size(n):
    return 3 * n + n * (n - 1) // 2


def energy(ctx, n, p, s):
    e = [ctx.ite(ctx.eq_(s[i], k), p[i + n * k], 0) for i in range(n) for k in range(3)]
    e += [ctx.ite(ctx.eq_(s[i], s[j]), p[3 * n + c], 0) for c, (i, j) in enumerate(combinations(range(n), 2))]
    return -ctx.sum(e)


def make(ctx, n, seed=3):
    p = ctx.reals('p', size(n))
    return p, cxx.Sampler(ctx, 1, n, p, seed)


@R.harness(encodes=[P + 'Potts3', P + 'readin_multipliers', P + 'calc_e', P + 'multipliers2ndarray'],
           bound='n = 1..4 spins (thorough 5), all real parameters, all states; 9 spins (thorough 16) with all but two given', cases=[dict(n=n) for n in (1, 2, 3, 4)] + [dict(n=9, free=2)],
           thorough=[dict(n=5), dict(n=16, free=3)])
def energies(ctx, n, free=9):
    p, m = make(ctx, n)
    s = ctx.ints('s', n, (0, 1, 2))
    for i in range(free, n):
        ctx.assume(ctx.eq_(s[i], (i * i + 1) % 3))
        s[i] = (i * i + 1) % 3
    ctx.eq(m.energy(s), energy(ctx, n, p, s), 'energy')
    q = m.params()
    for i in range(p.size):
        ctx.eq(q[i], p[i], 'parameter %d' % i)


def proposal(ctx, n, s, ix):
    """The state proposed with the coming draws: without energies every move is accepted."""
    z = cxx.Sampler(ctx, 1, n, [0] * size(n), 3)
    k = ctx.nrng
    t, de = z.step(s, ix)
    ctx.eq(de, 0, 'no energy change')
    ctx.check(len(ctx.draws) == 1 and ctx.draws[0][0] in 'ci', 'one draw for the proposal')
    ctx.check(ctx.draws[0][3] - ctx.draws[0][2] == 2, 'two other states to choose from')
    d = ctx.draws[0]
    ctx.rewind(k)
    return t, d


@R.harness(encodes=[P + 'sample_metropolis'], bound='n = 1..3 spins (thorough 4), every site, all real parameters, states and draws; 8 spins (thorough 13) with two given',
           cases=[dict(n=n, ix=i) for n in (1, 2, 3) for i in range(n)] + [dict(n=8, ix=i, free=(i, (i + 3) % 8)) for i in (0, 5, 7)],
           thorough=[dict(n=4, ix=i) for i in range(4)] + [dict(n=13, ix=i, free=(i,)) for i in (0, 6, 12)],
           tol=1e-5)
def step(ctx, n, ix, free=None):
    s = [ctx.choice('s%d' % i, (0, 1, 2)) if free is None or i in free else (i * i + 1) % 3 for i in range(n)]
    t, _ = proposal(ctx, n, s, ix)
    p, m = make(ctx, n)
    new, de = m.step(s, ix)
    d = energy(ctx, n, p, t) - energy(ctx, n, p, s)
    us = ctx.drawn('u')
    ctx.check(len(ctx.draws) == 1 + len(us), 'draws')
    acc = rule(ctx, d, us)
    ctx.eq(de, d if acc else 0, 'energy change')
    for i in range(n):
        ctx.eq(new[i], (t if acc else s)[i], 'spin %d' % i)
    unit(ctx, m)


@R.harness(encodes=[P + 'sample_metropolis'], bound='n = 1..3 spins, every site, all states and draws',
           cases=[dict(n=n, ix=i) for n in (1, 2, 3) for i in range(n)])
def proposals(ctx, n, ix):
    s = [ctx.choice('s%d' % i, (0, 1, 2)) for i in range(n)]
    t, a = proposal(ctx, n, s, ix)
    ctx.nrng = 1        # another draw
    u, b = proposal(ctx, n, s, ix)
    for i in range(n):
        if i != ix:
            ctx.eq(t[i], s[i], 'other spins stay')
    ctx.check(ctx.not_(ctx.eq_(t[ix], s[ix])), 'a different state is proposed')
    ctx.check(ctx.and_(ctx.le_(0, t[ix]), ctx.le_(t[ix], 2)), 'one of the three states')
    ctx.iff(ctx.eq_(t[ix], u[ix]), ctx.eq_(a[1], b[1]), 'every draw proposes a state of its own')


@R.harness(encodes=[P + 'Potts3', 'cpp/samplers.cpp:Sampler::Sampler'], bound='seeds 0, 7; unseeded',
           cases=[dict(seed=s) for s in (0, 7, -1)])
def seeding(ctx, seed):
    p, m = make(ctx, 2, seed)
    s = ctx.ints('s', 2, (0, 1, 2))
    ctx.eq(m.energy(s), energy(ctx, 2, p, s), 'energy')
    if seed >= 0:
        ctx.check(m.seeded(seed), 'generator seeded as asked')
