"""C19: pseudolikelihood for the Potts model maximises the conditional likelihoods, with exact gradient."""
from itertools import combinations
from vf.engine import Registry
from props.solver_common import Optimizer, guess_vector
from props.C18 import data, others

R = Registry()
V = 'coniii.solvers.'
U = 'coniii.utils.'


def cpl(n, k, i, j):
    return k * n + list(combinations(range(n), 2)).index((min(i, j), max(i, j)))


@R.harness(encodes=[V + 'Pseudo.solve', V + 'Pseudo._solve_potts', V + 'Pseudo.__init__',
                    U + 'define_pseudo_potts_helper_functions.get_multipliers_r',
                    U + 'define_pseudo_potts_helper_functions.calc_observables_r'],
           bound='n = 2, 3 spins with 3 states, every data set of 1 sample (thorough: 2 for n = 2), all real trial parameters; with and '
           'without an additional cost function', max_paths=20000, budget=400, tol=1e-5,
           cases=[dict(n=2, S=1, guess=False, cost=False), dict(n=2, S=1, guess='int', cost=False), dict(n=2, S=1, guess=True, cost=True),
                  dict(n=3, S=1, guess=True, cost=False), dict(n=4, S=2, guess=True, cost=True, given=True)],
           thorough=[dict(n=2, S=2, guess=True, cost=False), dict(n=3, S=1, guess=False, cost=True)])
def likelihood(ctx, n, S, guess, cost, given=False):
    ctx.exact_logs()
    k = 3
    sv, ut, mo = ctx.lib('solvers'), ctx.lib('utils'), ctx.lib('models')
    m = k * n + n * (n - 1) // 2
    X = data(ctx, S, n, (0, 1, 2), given)
    X0 = X.copy()
    gm, co = ut.define_pseudo_potts_helper_functions(n, k)
    s = sv.Pseudo(X, model=mo.Potts3(ctx.np.zeros(m)), get_multipliers_r=gm, calc_observables_r=co, k=k,
                  calc_observables=ut.define_potts_helper_functions(k)[1], iprint=False)
    fake = Optimizer(ctx, probe=True)
    ctx.optimizer(sv, 'minimize', fake)
    a = {}
    g0 = ctx.np.zeros(m)
    if guess:
        a['initial_guess'] = g = guess_vector(ctx, 'g', m, guess)
        g0 = g.copy()
    if cost:
        lam = ctx.real('lam')
        ctx.optimizer(sv, 'check_grad', lambda *aa, **kk: 0.)
        a['cost_fcn'] = lambda p: lam * ctx.sum([v * v for v in p])
        a['cost_fcn_jac'] = lambda p: 2 * lam * p
    else:
        lam = 0
    x, so = s.solve(full_output=True, solver_kwargs={'tol': 1e-9}, **a)
    ctx.check(len(fake.calls) == 1, 'one optimisation')
    _, x0, kw = fake.calls[0]
    ctx.check(kw.get('tol') == 1e-9, 'options passed on')
    ctx.eq(x0, g0, 'initial guess')
    ctx.eq(x, fake.results[0]['x'], 'result returned')
    ctx.eq(s.multipliers, fake.results[0]['x'], 'result kept')
    ctx.check(so is fake.results[0], 'scipy output returned')
    t, v, gr = fake.probes[0]
    pen = lam * ctx.sum([y * y for y in t]) if cost else 0
    prod = 1
    G = [0] * m
    for q in range(S):
        row = [int(y) for y in X0[q]]
        for r in range(n):
            def w(c):
                return t[r + n * c] + ctx.sum([t[cpl(n, k, r, j)] for j in others(n, r) if row[j] == c])
            w0 = w(row[r])
            ex = [ctx.exp(w(c) - w0) for c in range(k)]
            Z = ctx.sum(ex)
            prod = prod * Z
            for c in range(k):
                p = ex[c] / Z
                d = p - (1 if c == row[r] else 0)
                G[r + n * c] = G[r + n * c] + d
                for j in others(n, r):
                    if row[j] == c:
                        G[cpl(n, k, r, j)] = G[cpl(n, k, r, j)] + d
    ctx.eq(ctx.exp(v - pen), prod, 'negative log likelihood')
    ctx.check(gr is not None and gr.size == m, 'gradient given')
    for i in range(m):
        ctx.eq(gr[i], G[i] + (2 * lam * t[i] if cost else 0), 'gradient %d' % i)
    if guess:
        ctx.eq(g, g0, 'guess unchanged')
    ctx.eq(X, X0, 'sample unchanged')


@R.harness(encodes=[U + 'define_pseudo_potts_helper_functions.get_multipliers_r',
                    U + 'define_pseudo_potts_helper_functions.calc_observables_r'],
           bound='n = 2..4 spins, k = 2..4 states, 1 row (2 rows for n = k = 2), every state, all real parameters',
           cases=[dict(n=n, k=k) for n in (2, 3, 4) for k in (2, 3, 4) if n + k < 8],
           thorough=[dict(n=4, k=4), dict(n=2, k=6)], max_paths=3000)
def helpers(ctx, n, k):
    ut = ctx.lib('utils')
    gm, co = ut.define_pseudo_potts_helper_functions(n, k)
    p = ctx.reals('p', n * k + n * (n - 1) // 2)
    S = 2 if n + k < 5 else 1
    X = ctx.ints('s', (S, n), range(k))
    for r in range(n):
        mu, ix = gm(r, p)
        want = [r + n * c for c in range(k)] + [cpl(n, k, r, j) for j in others(n, r)]
        ctx.check(len(mu) == len(want) == len(ix), 'number of parameters of spin %d' % r)
        for c, w in enumerate(want):
            ctx.eq(ix[c], w, 'index %d of spin %d' % (c, r))
            ctx.eq(mu[c], p[w], 'parameter %d of spin %d' % (c, r))
        o, oth, st = co(r, X)
        ctx.check(len(oth) == k - 1, 'one set of observables per other state')
        for q in range(S):
            for c in range(k):
                ctx.eq(o[q, c], ctx.ite(ctx.eq_(X[q, r], c), 1, 0), 'state of spin %d' % r)
            for c, j in enumerate(others(n, r)):
                ctx.eq(o[q, k + c], ctx.ite(ctx.eq_(X[q, r], X[q, j]), 1, 0), 'agreement of %d and %d' % (r, j))
            for z in range(k - 1):
                y = st[q, z]
                ctx.check(ctx.and_(*[ctx.not_(ctx.eq_(y, X[q, r]))] + [ctx.not_(ctx.eq_(y, st[q, b])) for b in range(z)] +
                                   [ctx.le_(0, y), ctx.lt_(y, k)]), 'other states of spin %d' % r)
                for c in range(k):
                    ctx.eq(oth[z][q, c], ctx.ite(ctx.eq_(y, c), 1, 0), 'state of spin %d if changed' % r)
                for c, j in enumerate(others(n, r)):
                    ctx.eq(oth[z][q, k + c], ctx.ite(ctx.eq_(y, X[q, j]), 1, 0), 'agreement if changed')
    ctx.check(True, 'done')
