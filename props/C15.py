"""C15: the compiled samplers run the chain they are asked for."""
from vf.engine import Registry
from vf import cxx
from props.C13 import unit
from props.C14 import size as potts_size

R = Registry()
R.assumptions = ['the C++ is compiled to LLVM IR with stand-in headers for Boost.Python; random distributions return '
                 'arbitrary values of their range',
                 'the draws of a chain are made in the order initial state, then site and step by step']
S = 'cpp/samplers.cpp:Sampler::'
STATES = ((-1, 1), (0, 1, 2))
cxx.prepare()


def params(ctx, kind, n, name='p'):
    return ctx.reals(name, potts_size(n) if kind else n + n * (n - 1) // 2)


def pair(ctx, kind, n):
    """Two samplers with the same parameters: one runs chains, the other single steps."""
    p = params(ctx, kind, n)
    return cxx.Sampler(ctx, kind, n, p), cxx.Sampler(ctx, kind, n, p)


def start(ctx, kind, n, m):
    """Initial state of a chain and the number of draws it takes."""
    m.sample(1, 0, 0, True)
    s = m.fetch(1)[0]
    k = ctx.nrng
    ctx.rewind()
    return s, k


@R.harness(encodes=[S + 'generate_sample', S + 'fetch_sample', 'cpp/samplers.cpp:Ising::init_sample',
                    'cpp/samplers.cpp:Potts3::init_sample'], bound='n = 1..3 spins, all draws, after a sampler of another size',
           cases=[dict(kind=k, n=n) for k in (0, 1) for n in (1, 2, 3) if (k, n) != (1, 3)],
           thorough=[dict(kind=1, n=3)])
def initial(ctx, kind, n):
    q = 1 if n > 1 else 2   # a sampler of another size, used before
    other = cxx.Sampler(ctx, kind, q, params(ctx, kind, q, 'q'))
    other.sample(1, 0, 0, False)
    ctx.draws[:] = []
    m = cxx.Sampler(ctx, kind, n, params(ctx, kind, n), beside=other)
    m.sample(1, 0, 0, False)
    s = m.fetch(1)[0]
    a = list(ctx.draws)
    ctx.check(len(a) == n and all(d[3] - d[2] == len(STATES[kind]) for d in a), 'one draw per spin, as many values as states')
    ctx.draws[:] = []
    m.sample(1, 0, 0, False)        # further draws
    t = m.fetch(1)[0]
    b = list(ctx.draws)
    ctx.check(len(b) == n, 'one draw per spin')
    for i in range(n):
        ctx.check(ctx.or_(*[ctx.eq_(s[i], v) for v in STATES[kind]]), 'state of spin %d' % i)
    same = ctx.and_(*[ctx.eq_(x[1], y[1]) for x, y in zip(a, b)])
    ctx.iff(ctx.and_(*[ctx.eq_(x, y) for x, y in zip(s, t)]), same, 'every combination of draws gives a state of its own')


def reference(ctx, kind, n, m2, s, sites, n_samples, burn_in, n_iters, sy):
    """The chain run step by step."""
    rows, c = [], 0
    s = list(s)
    draw = ctx.rng()

    def step(s, c):
        if sy:
            ix = sites[c % len(sites)]
        else:
            ix = sites[int(draw.randint(0, len(sites)))]
        return m2.step(s, ix)[0]
    for _ in range(burn_in):
        s = step(s, c)
        c += 1
    for _ in range(n_samples):
        for _ in range(n_iters):
            s = step(s, c)
            c += 1
        rows.append(list(s))
    return rows


def compare(ctx, m, m2, kind, n, s0, k, sites, run, n_samples, burn_in, n_iters, sy):
    ctx.rewind()
    run()
    rows = m.fetch(n_samples)
    used = ctx.nrng
    mine = [d for d in ctx.draws[k:]]
    ctx.rewind(k)
    want = reference(ctx, kind, n, m2, s0, sites, n_samples, burn_in, n_iters, sy)
    ctx.check(ctx.nrng == used, 'number of draws')
    for a, b in zip(mine, ctx.draws[k:]):
        ctx.check(a[0] == b[0] and a[2:] == b[2:], 'range of the draws')
    for r in range(n_samples):
        for i in range(n):
            ctx.eq(rows[r][i], want[r][i], 'sample %d, spin %d' % (r, i))
    unit(ctx, m)


def _cases(kinds, ns, runs, sys):
    return [dict(kind=k, n=n, N=a, burn=b, it=c, sy=s) for k in kinds for n in ns for a, b, c in runs for s in sys]


def watched(ctx, m, n, s0, sites, run, N, burn, it, sy):
    """Chain of arbitrary steps: number, sites and what is recorded."""
    run()
    h = m.b.hops
    ctx.check(len(h) == burn + N * it, 'number of steps')
    ctx.check(len(ctx.draws) == (0 if sy else len(h)), 'one draw per random site')
    states = [list(s0)] + [list(ctx.ints('hop%d' % (k + 1), n, m.b.states)) for k in range(len(h))]
    for k, (old, site) in enumerate(h):
        if sy:
            want = sites[k % len(sites)]
        else:
            d = ctx.draws[k]
            ctx.check(d[0] in 'ic' and d[2:] == (0, len(sites)), 'range of the site')
            want = ctx.sum([ctx.ite(ctx.eq_(d[1], q), x, 0) for q, x in enumerate(sites)])
        ctx.eq(site, want, 'site of step %d' % k)
        for i in range(n):
            ctx.eq(old[i], states[k][i], 'step %d continues from the state before' % k)
    rows = m.fetch(N)
    for r in range(N):
        for i in range(n):
            ctx.eq(rows[r][i], states[burn + (r + 1) * it][i], 'sample %d, spin %d' % (r, i))
    ctx.check(m.own_generator(), "draws come from the sampler's own generator")


@R.harness(encodes=[S + 'generate_sample', S + 'fetch_sample'],
           bound='n = 1..5 spins, up to 4 samples and 14 steps (thorough 8 spins, 40 steps); initial states and outcomes of the '
           'steps arbitrary',
           cases=_cases((2, 3), (1, 3, 5), ((2, 3, 4), (3, 0, 3), (4, 5, 0), (1, 0, 7), (3, 1, 1)), (True, False)),
           thorough=_cases((2, 3), (2, 4, 8), ((5, 10, 6), (6, 3, 2), (2, 1, 9)), (True, False)))
def steps(ctx, kind, n, N, burn, it, sy):
    m = cxx.Sampler(ctx, kind, n, params(ctx, kind % 2, n))
    watched(ctx, m, n, ctx.ints('begin', n, m.b.states), list(range(n)), lambda: m.sample(N, burn, it, sy), N, burn, it, sy)


def _fixed(n):
    from itertools import combinations
    return [f for k in range(0, n) for f in combinations(range(n), k)]


@R.harness(encodes=[S + 'generate_cond_sample', S + 'readin_fixed_set'],
           bound='n = 2..4 spins with every set of fixed spins (thorough 5), any fixed values; initial states and outcomes of the '
           'steps arbitrary', cases=[dict(n=n, fix=f, N=3, burn=2, it=3, sy=s) for n in (2, 3, 4) for f in _fixed(n)
                                     for s in (True, False)],
           thorough=[dict(n=5, fix=f, N=2, burn=5, it=4, sy=s) for f in _fixed(5) for s in (True, False)])
def cond_steps(ctx, n, fix, N, burn, it, sy):
    m = cxx.Sampler(ctx, 2, n, params(ctx, 0, n))
    v = [ctx.int('v%d' % i, (-1, 1)) for i in range(len(fix))]
    s0 = list(ctx.ints('begin', n, m.b.states))
    for i, x in zip(fix, v):
        s0[i] = x
    free = [i for i in range(n) if i not in fix]
    watched(ctx, m, n, s0, free, lambda: m.cond(fix, v, N, burn, it, sy), N, burn, it, sy)


@R.harness(encodes=[S + 'generate_sample', S + 'fetch_sample'], max_paths=20000,
           bound='Ising n = 1..3 (steps up to 3; thorough 4), Potts n = 1, 2 (1 step; thorough 2); systematic and random sites; all '
           'parameters and draws',
           cases=_cases((0,), (2,), ((1, 0, 1), (1, 1, 1), (2, 1, 0)), (True,)) + _cases((0,), (2,), ((1, 1, 0),), (False,)) +
           _cases((0,), (3,), ((1, 0, 2),), (True,)) + _cases((0,), (3,), ((1, 0, 1),), (False,)) +
           _cases((0,), (1,), ((2, 1, 1),), (True, False)) + _cases((1,), (1,), ((1, 1, 1),), (True,)) +
           _cases((1,), (2,), ((1, 0, 1),), (True,)),
           thorough=_cases((0,), (2,), ((1, 3, 0), (2, 0, 2)), (True,)) +
           _cases((0,), (2,), ((1, 1, 1), (2, 0, 1), (1, 1, 2)), (False,)) + _cases((0,), (3,), ((2, 1, 1), (1, 0, 4)), (True,)) +
           _cases((0,), (3,), ((1, 1, 1), (2, 0, 1)), (False,)) + _cases((1,), (2,), ((1, 0, 2), (2, 0, 1)), (True,)) +
           _cases((1,), (1,), ((2, 1, 1),), (True,)) + _cases((1,), (2,), ((1, 0, 1), (1, 1, 0)), (False,)))
def chain(ctx, kind, n, N, burn, it, sy):
    m, m2 = pair(ctx, kind, n)
    s0, k = start(ctx, kind, n, m)
    compare(ctx, m, m2, kind, n, s0, k, list(range(n)), lambda: m.sample(N, burn, it, sy), N, burn, it, sy)


def _cond():
    out = []
    for n, fix in ((2, (0,)), (2, (1,)), (3, (1,)), (3, (0, 2))):
        out += [dict(n=n, fix=fix, N=2, burn=0, it=1, sy=True)]
    return out + [dict(n=3, fix=(1, 2), N=1, burn=1, it=1, sy=False)]


@R.harness(encodes=[S + 'generate_cond_sample', S + 'readin_fixed_set'], max_paths=20000,
           bound='Ising n = 2, 3 spins (thorough 5); all parameters, fixed values and draws', cases=_cond(),
           thorough=[dict(n=3, fix=(0,), N=1, burn=1, it=2, sy=True), dict(n=3, fix=(2,), N=2, burn=1, it=1, sy=True),
                     dict(n=4, fix=(0, 2), N=1, burn=1, it=2, sy=True), dict(n=4, fix=(1, 2), N=1, burn=0, it=2, sy=False)] + [dict(n=4, fix=f, N=2, burn=1, it=1, sy=True) for f in ((0,), (1,), (3,), (0, 3), (2, 3), (1, 3))] +
           [dict(n=5, fix=f, N=1, burn=1, it=1, sy=False) for f in ((1, 3), (0, 2, 4))])
def conditional(ctx, n, fix, N, burn, it, sy):
    m, m2 = pair(ctx, 0, n)
    s0, k = start(ctx, 0, n, m)
    v = [ctx.int('v%d' % i, (-1, 1)) for i in range(len(fix))]
    s0 = list(s0)
    for i, x in zip(fix, v):
        s0[i] = x
    free = [i for i in range(n) if i not in fix]
    compare(ctx, m, m2, 0, n, s0, k, free, lambda: m.cond(fix, v, N, burn, it, sy), N, burn, it, sy)


@R.harness(encodes=[S + 'means', S + 'fetch_sample'], bound='n = 1..3 spins, up to 3 samples, all draws',
           cases=[dict(n=1, N=2), dict(n=2, N=3), dict(n=3, N=2)])
def averages(ctx, n, N):
    m, _ = pair(ctx, 0, n)
    m.sample(N, 0, 1 if n < 3 else 0, True)
    rows = m.fetch(N)
    for i, x in enumerate(m.means()):
        ctx.eq(x * N, ctx.sum([r[i] for r in rows]), 'mean of spin %d' % i)
