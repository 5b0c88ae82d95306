"""C10: Monte Carlo histogram step predicts the exactly reweighted averages."""
from itertools import combinations
from vf.engine import Registry

R = Registry()
U = 'coniii.utils.'


def reweighted(ctx, X, S, obs_of, p):
    O = [obs_of([X[r, i] for i in range(X.shape[1])]) for r in range(S)]
    w = [ctx.exp(ctx.sum([a * b for a, b in zip(o, p)])) for o in O]
    Z = ctx.sum(w)
    return [ctx.sum([o[k] * x for o, x in zip(O, w)]) / Z for k in range(len(p))]


def prod2(x, pairs):
    return [x[i] * x[j] for i, j in pairs]


def go(ctx, f, X, S, obs_of, p):
    X0, p0 = X.copy(), p.copy()
    got = f(X, p)
    want = reweighted(ctx, X, S, obs_of, list(p))
    ctx.check(len(got) == len(want), 'number of predictions')
    for k in range(len(want)):
        ctx.eq(got[k], want[k], 'prediction %d' % k)
    ctx.eq(X, X0, 'sample unchanged')
    ctx.eq(p, p0, 'step unchanged')


@R.harness(encodes=[U + 'define_ising_helper_functions.mch_approximation', U + 'pair_corr'], tol=1e-5,
           bound='samples of 1..3 states of 2..3, 8 spins (thorough 4 states), all real parameter steps', max_paths=4000,
           cases=[dict(n=n, S=S, dom=d) for n, S in ((2, 1), (2, 2), (2, 3), (3, 2)) for d in ((-1, 1), (0, 1))] + [dict(n=8, S=2, dom=(-1, 1)), dict(n=3, S=3, dom=(-1, 1))],
           thorough=[dict(n=4, S=2, dom=(-1, 1)), dict(n=8, S=2, dom=(0, 1)), dict(n=3, S=4, dom=(0, 1))])
def ising(ctx, n, S, dom):
    f = ctx.lib('utils').define_ising_helper_functions()[2]
    pairs = list(combinations(range(n), 2))
    go(ctx, f, ctx.ints('x', (S, n), dom), S, lambda x: x + prod2(x, pairs), ctx.reals('d', n + len(pairs)))


@R.harness(encodes=[U + 'define_ising_helper_functions_sym.mch_approximation', U + 'pair_corr'], tol=1e-5, max_paths=4000,
           bound='symmetric Ising: samples of 1..3 states of 2..3 spins (thorough 4) in {-1,1}, all real steps',
           cases=[dict(n=n, S=S) for n, S in ((2, 1), (2, 2), (2, 3), (3, 2))],
           thorough=[dict(n=3, S=3), dict(n=4, S=2), dict(n=8, S=2)])
def ising_sym(ctx, n, S):
    f = ctx.lib('utils').define_ising_helper_functions_sym()[2]
    pairs = list(combinations(range(n), 2))
    go(ctx, f, ctx.ints('x', (S, n), (-1, 1)), S, lambda x: prod2(x, pairs), ctx.reals('d', len(pairs)))


@R.harness(encodes=[U + 'define_potts_helper_functions.mch_approximation'], tol=1e-5, max_paths=4000,
           bound='Potts: samples of 1..2 states of 2..3 spins, k = 2..3 (thorough 4), all real steps',
           cases=[dict(n=n, S=S, k=k) for n, S, k in ((2, 1, 2), (2, 2, 2), (2, 2, 3), (3, 2, 2))],
           thorough=[dict(n=2, S=2, k=4)])
def potts(ctx, n, S, k):
    f = ctx.lib('utils').define_potts_helper_functions(k)[2]
    pairs = list(combinations(range(n), 2))

    def obs(x):
        return [ctx.ite(ctx.eq_(x[i], q), 1, 0) for q in range(k) for i in range(n)] + [
            ctx.ite(ctx.eq_(x[i], x[j]), 1, 0) for i, j in pairs]
    go(ctx, f, ctx.ints('x', (S, n), range(k)), S, obs, ctx.reals('d', n * k + len(pairs)))
