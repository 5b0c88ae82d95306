"""C13: the compiled Ising sampler computes the energy and steps by the Metropolis rule."""
from itertools import combinations
from vf.engine import Registry
from vf import cxx

R = Registry()
R.assumptions = ['the C++ is compiled to LLVM IR with stand-in headers for Boost.Python; random distributions return '
                 'arbitrary values of their range']
I = 'cpp/samplers.cpp:Ising::'
cxx.prepare()


def energy(ctx, n, p, s):
    e = -ctx.sum([p[i] * s[i] for i in range(n)])
    return e - ctx.sum([p[n + k] * s[i] * s[j] for k, (i, j) in enumerate(combinations(range(n), 2))])


def make(ctx, n, seed=3):
    p = ctx.reals('p', n + n * (n - 1) // 2)
    return p, cxx.Sampler(ctx, 0, n, p, seed)


def reread(ctx, n, m):
    q = ctx.reals('q', n + n * (n - 1) // 2)
    m.reread(q)
    return q


def rule(ctx, d, us):
    """Whether a move with energy change d is accepted."""
    if not us:
        ctx.check(ctx.le_(d, 0), 'no draw only for moves that do not increase the energy')
        return True
    ctx.check(len(us) == 1, 'one uniform draw')
    ctx.assume(ctx.not_(ctx.eq_(us[0], ctx.exp(-d))))
    return ctx.branch(ctx.or_(ctx.le_(d, 0), ctx.lt_(us[0], ctx.exp(-d))))


def unit(ctx, m):
    ctx.check(ctx.and_(*[ctx.and_(ctx.eq_(k[1], 0), ctx.eq_(k[2], 1)) for k in m.b.ranges if k[0] == 'u']),
              'range of the draws')
    ctx.check(m.own_generator(), "draws come from the sampler's own generator")


@R.harness(encodes=[I + 'Ising', I + 'readin_multipliers', I + 'calc_e', 'cpp/samplers.cpp:Sampler::Sampler'],
           bound='n = 1..6, 20 spins (thorough 10, 40), all real parameters, all states',
           cases=[dict(n=n, again=a) for n in (1, 2, 3, 4, 6, 20) for a in (False, True)],
           thorough=[dict(n=n, again=a) for n in (5, 8, 10, 40) for a in (False, True)])
def energies(ctx, n, again):
    p, m = make(ctx, n)
    if again:
        p = reread(ctx, n, m)
    s = ctx.ints('s', n, (-1, 1))
    ctx.eq(m.energy(s), energy(ctx, n, p, s), 'energy')


@R.harness(encodes=[I + 'sample_metropolis', I + 'readin_multipliers'],
           bound='n = 1..4, 15 spins (thorough 7, 30), every site, all real parameters, states and draws', tol=1e-5,
           cases=[dict(n=n, ix=i, again=a) for n in (1, 2, 3, 4) for i in range(n) for a in (False, True) if n < 4 or not a] +
           [dict(n=15, ix=i, again=False) for i in (0, 7, 14)],
           thorough=[dict(n=n, ix=i, again=False) for n in (5, 6, 7) for i in range(n)] + [dict(n=30, ix=i, again=False) for i in (0, 17, 29)])
def step(ctx, n, ix, again):
    p, m = make(ctx, n)
    if again:
        p = reread(ctx, n, m)
    s = ctx.ints('s', n, (-1, 1))
    new, de = m.step(s, ix)
    t = s.copy()
    t[ix] = -t[ix]
    d = energy(ctx, n, p, t) - energy(ctx, n, p, s)
    ctx.check(all(x[0] == 'u' for x in ctx.draws), 'only uniform draws')
    acc = rule(ctx, d, ctx.drawn('u'))
    ctx.eq(de, d if acc else 0, 'energy change')
    for i in range(n):
        ctx.eq(new[i], (t if acc else s)[i], 'spin %d' % i)
    unit(ctx, m)


@R.harness(encodes=[I + 'Ising', 'cpp/samplers.cpp:Sampler::Sampler'], bound='seeds 0, 1, 7, 2^31-1; unseeded',
           cases=[dict(seed=s) for s in (0, 1, 7, 2**31 - 1, -1)])
def seeding(ctx, seed):
    p, m = make(ctx, 2, seed)
    s = ctx.ints('s', 2, (-1, 1))
    ctx.eq(m.energy(s), energy(ctx, 2, p, s), 'energy')
    if seed >= 0:
        ctx.check(m.seeded(seed), 'generator seeded as asked')
        ctx.check(not m.seeded(seed - 1 if seed else 5), 'seeds differ')
