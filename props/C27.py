"""C27: the Ising front end describes one model in both bases."""
from itertools import combinations, product
from vf.engine import Registry
from props.C01 import boltzmann, join_branches

R = Registry()
I = 'coniii.ising.utils.Ising.'


def states(n, b=(-1, 1)):
    return list(product(b, repeat=n))


def energy(ctx, h, J, s):
    n = len(s)
    return -ctx.sum([h[i] * s[i] for i in range(n)]) - ctx.sum([J[q] * (s[i] * s[j]) for q, (i, j) in enumerate(combinations(range(n), 2))])


def params(ctx, n, form):
    """Arguments of the constructor and the parameters they stand for."""
    m = n * (n - 1) // 2
    if form == 'none':
        return (None, None), [0] * n, [0] * m
    if form == 'scalar':
        a, b = ctx.real('a'), ctx.real('b')
        return (a, b), [a] * n, [b] * m
    if form == 'int':
        return (2, -1), [2] * n, [-1] * m
    if form == 'intlist':
        h, J = list(range(1, n + 1)), [2 - i for i in range(m)]
        return (h, J), h, J
    h, J = list(ctx.reals('h', n)), list(ctx.reals('J', m))
    if form == 'fields':
        return (list(h), None), h, [0] * m
    if form == 'couplings':
        return (None, tuple(J)), [0] * n, J
    t = {'list': list, 'tuple': tuple, 'array': ctx.np.array}[form]
    return (t(h), t(J)), h, J


@R.harness(encodes=[I + f for f in ('__init__', 'fields', 'couplings', 'neighbor_dE')], max_paths=20000,
           bound='2..4 spins (thorough 6), every form of the parameters, all parameters and states',
           cases=[dict(n=3, form=f) for f in ('none', 'scalar', 'int', 'intlist', 'list', 'tuple', 'array', 'fields', 'couplings')] +
           [dict(n=2, form='array'), dict(n=2, form='list'), dict(n=2, form='scalar'), dict(n=4, form='array')],
           thorough=[dict(n=5, form='array'), dict(n=6, form='list')])
def energies(ctx, n, form):
    u = ctx.lib('ising.utils')
    arg, h, J = params(ctx, n, form)
    keep = [None if a is None or not hasattr(a, '__len__') else list(a) for a in arg]
    M = u.Ising(n, h=arg[0], J=arg[1])
    for a, k in zip(arg, keep):
        ctx.check(k is None or len(a) == len(k) and all(x is y or bool(x == y) for x, y in zip(a, k)), 'arguments unchanged')
    ctx.eq(M.fields(), ctx.np.array(h), 'fields')
    ctx.eq(M.couplings(), ctx.np.array(J), 'couplings')
    ctx.eq(M.fields(basis='1'), ctx.np.array(h), 'fields')
    ctx.eq(M.couplings(basis='1'), ctx.np.array(J), 'couplings')
    h0, J0 = M.fields(basis='0'), M.couplings(basis='0')
    ctx.check(tuple(h0.shape) == (n,) and tuple(J0.shape) == (n * (n - 1) // 2,), 'sizes')
    low = (-1,) * n
    for s in states(n):
        z = tuple((x + 1) // 2 for x in s)
        ctx.eq(energy(ctx, h, J, s) - energy(ctx, h, J, low), energy(ctx, h0, J0, z), 'energies of the {0,1} parameters')
    s = ctx.np.array(ctx.ints('s', n, (-1, 1))) if n < 4 else ctx.np.array([ctx.choice('s%d' % i, (-1, 1)) for i in range(n)])
    d = M.neighbor_dE(s)
    for i in range(n):
        t = [-s[j] if j == i else s[j] for j in range(n)]
        ctx.eq(d[i], energy(ctx, h, J, t) - energy(ctx, h, J, list(s)), 'energy difference of flipping %d' % i)


@R.harness(encodes=[I + '__init__'], bound='3 spins', cases=[dict()])
def sizes(ctx):
    u = ctx.lib('ising.utils')
    h, J = ctx.reals('h', 3), ctx.reals('J', 3)
    for bad in (dict(h=list(h)[:2]), dict(J=list(J)[:2]), dict(h=list(h) + [0.]), dict(J=list(J) + [0.] * 3), dict(h=ctx.np.array([list(h)] * 3)),
                dict(J=ctx.np.array([list(J)] * 3))):
        ctx.raises(lambda: u.Ising(3, **bad), Exception, 'wrong number of parameters')
    ctx.raises(lambda: u.Ising(1), Exception, 'one spin')


@R.harness(encodes=[I + 'correlations'], bound='2, 3 spins (thorough 4, 5), all parameters', tol=1e-6, max_paths=100,
           cases=[dict(n=2), dict(n=3)], thorough=[dict(n=4), dict(n=5)])
def correlations(ctx, n):
    join_branches(ctx)
    u = ctx.lib('ising.utils')
    h, J = ctx.reals('h', n), ctx.reals('J', n * (n - 1) // 2)
    M = u.Ising(n, h=h, J=J)
    terms = [(i,) for i in range(n)] + list(combinations(range(n), 2))
    obs = [[s[t[0]] * (s[t[1]] if len(t) > 1 else 1) for t in terms] for s in states(n)]
    P, C = boltzmann(ctx, list(h) + list(J), obs)
    for c in (M.correlations(), M.correlations(basis='1')):
        ctx.eq(c, ctx.np.array(C), 'averages of {-1,1} spins')
    c = M.correlations(basis='0')
    ctx.check(tuple(c.shape) == (len(terms),), 'size')
    for k, t in enumerate(terms):
        ctx.eq(c[k], ctx.sum([p for p, s in zip(P, states(n)) if all(s[i] == 1 for i in t)]), 'average of %s, {0,1} spins' % (t,))


@R.harness(encodes=[I + f for f in ('find_basin', 'neighbor_dE')], bound='2, 3 spins (thorough 4), all parameters and states', max_paths=20000,
           cases=[dict(n=2, dtype='int'), dict(n=2, dtype='float'), dict(n=3, dtype='int'), dict(n=2, dtype='int8')], thorough=[dict(n=3, dtype='float'), dict(n=4, dtype='int')])
def basin(ctx, n, dtype):
    u = ctx.lib('ising.utils')
    h, J = ctx.reals('h', n), ctx.reals('J', n * (n - 1) // 2)
    M = u.Ising(n, h=h, J=J)
    # fields and couplings have any sign
    s = [(1, -1, 1)[i] if n == 3 and ctx.tier == 'quick' else ctx.choice('s%d' % i, (-1, 1)) for i in range(n)]
    a = ctx.np.array([float(x) for x in s]) if dtype == 'float' else ctx.np.array(s, dtype=getattr(ctx.np, dtype) if dtype != 'int' else int)
    out = M.find_basin(a)
    ctx.eq(a, ctx.np.array(s), 'given state unchanged')
    ctx.check(tuple(out.shape) == (n,), 'shape')
    end = [int(ctx.concrete(x)) for x in out]
    now = list(s)
    for _ in range(2**n):
        d = []
        for i in range(n):
            t = [-x if j == i else x for j, x in enumerate(now)]
            d.append(energy(ctx, h, J, t) - energy(ctx, h, J, now))
        best = None
        for i in range(n):
            if ctx.branch(ctx.lt_(d[i], 0)) and all(ctx.branch(ctx.lt_(d[i], d[j])) for j in range(n) if j != i):
                best = i
        if best is None:
            if not all(ctx.branch(ctx.le_(0, x)) for x in d):
                ctx.assume(False)   # ties are left open
            break
        now[best] *= -1
    ctx.check(end == now, 'state reached by the steepest flips')
