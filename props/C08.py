"""C08: energy and observable helpers describe the same model."""
from itertools import combinations
from vf.engine import Registry

R = Registry()
U = 'coniii.utils.'


def prod(x):
    r = 1
    for y in x:
        r = r * y
    return r


def ising_like(ctx, fns, n, rows, order, lo, dom):
    calc_e, calc_obs = fns[0], fns[1]
    terms = [t for o in range(lo, order + 1) for t in combinations(range(n), o)]
    X = ctx.ints('s', (rows, n), dom)
    X0 = X.copy()
    p = ctx.reals('p', len(terms))
    obs = calc_obs(X)
    E = calc_e(X, p)
    ctx.check(tuple(obs.shape) == (rows, len(terms)), 'shape of the observables')
    for r in range(rows):
        for k, t in enumerate(terms):
            ctx.eq(obs[r, k], prod([X[r, i] for i in t]), 'observable %s' % (t,))
        ctx.eq(E[r], -ctx.sum([p[k] * prod([X[r, i] for i in t]) for k, t in enumerate(terms)]), 'energy of row %d' % r)
    ctx.eq(X, X0, 'states unchanged')


D11, D01, D3 = (-1, 1), (0, 1), (-1, 0, 1)


@R.harness(encodes=[U + 'define_ising_helper_functions.' + f for f in ('calc_e', 'calc_observables', 'fast_sum')],
           bound='n = 2..5, 14 spins (thorough 6, 7, 24), every pair of rows over {-1,0,1}^n, all real parameters',
           cases=[dict(n=n, dom=d) for n in (2, 3, 4, 5, 14) for d in (D11, D01)] + [dict(n=3, dom=D3)],
           thorough=[dict(n=n, dom=d) for n in (6, 7, 24) for d in (D11, D01)])
def ising(ctx, n, dom):
    ising_like(ctx, ctx.lib('utils').define_ising_helper_functions(), n, 2, 2, 1, dom)


@R.harness(encodes=[U + 'define_ising_helper_functions_sym.' + f for f in ('calc_e', 'calc_observables', 'fast_sum')],
           bound='n = 2..5, 14 spins (thorough 6, 7, 24), two rows, all real couplings', cases=[dict(n=n) for n in (2, 3, 4, 5, 14)],
           thorough=[dict(n=n) for n in (6, 7, 24)])
def ising_sym(ctx, n):
    ising_like(ctx, ctx.lib('utils').define_ising_helper_functions_sym(), n, 2, 2, 2, D11)


@R.harness(encodes=[U + 'define_triplet_helper_functions.' + f for f in ('calc_e', 'calc_observables')],
           bound='n = 3..5, 10 spins (thorough 6, 14), two rows', cases=[dict(n=n, dom=d) for n in (3, 4, 5, 10) for d in (D11, D01)],
           thorough=[dict(n=6, dom=D11), dict(n=14, dom=D01)])
def triplet(ctx, n, dom):
    ising_like(ctx, ctx.lib('utils').define_triplet_helper_functions(), n, 2, 3, 1, dom)


@R.harness(encodes=[U + 'define_potts_helper_functions.' + f for f in ('calc_e', 'calc_observables')],
           bound='n = 2..4, 10 spins, k = 2..4, 15 states (thorough 16 spins), two rows, all real parameters',
           cases=[dict(n=n, k=k) for n in (2, 3, 4) for k in (2, 3, 4)] + [dict(n=10, k=3), dict(n=3, k=15)], thorough=[dict(n=5, k=3), dict(n=3, k=6), dict(n=16, k=4)])
def potts(ctx, n, k):
    calc_e, calc_obs = ctx.lib('utils').define_potts_helper_functions(k)[:2]
    X = ctx.ints('s', (2, n), range(k))
    X0 = X.copy()
    pairs = list(combinations(range(n), 2))
    p = ctx.reals('p', n * k + len(pairs))
    obs, E = calc_obs(X), calc_e(X, p)
    ctx.check(tuple(obs.shape) == (2, n * k + len(pairs)), 'shape of the observables')
    for r in range(2):
        want = [ctx.ite(ctx.eq_(X[r, i], q), 1, 0) for q in range(k) for i in range(n)] + [
            ctx.ite(ctx.eq_(X[r, i], X[r, j]), 1, 0) for i, j in pairs]
        for a, b in zip(obs[r], want):
            ctx.eq(a, b, 'observable')
        ctx.eq(E[r], -ctx.sum([x * y for x, y in zip(want, p)]), 'energy')
    ctx.eq(X, X0, 'states unchanged')


@R.harness(encodes=[U + 'calc_de', U + 'ind_to_sub'], bound='n = 2..5, 16 spins (thorough 8, 30), every parameter index, all states over '
           '{-1,0,1}', cases=[dict(n=n) for n in (2, 3, 4, 5, 16)], thorough=[dict(n=8), dict(n=30)])
def energy_derivative(ctx, n):
    u = ctx.lib('utils')
    X = ctx.ints('s', (2, n), D3)
    X0 = X.copy()
    pairs = list(combinations(range(n), 2))
    for i in range(n + len(pairs)):
        d = u.calc_de(X, i)
        for r in range(2):
            ctx.eq(d[r], -X[r, i] if i < n else -X[r, pairs[i - n][0]] * X[r, pairs[i - n][1]], 'dE/dp[%d]' % i)
    ctx.eq(X, X0, 'states unchanged')
