"""C18: pseudolikelihood (Ising and general) maximises the conditional likelihoods of the data, with exact gradients."""
from itertools import combinations
from vf.engine import Registry
from props.solver_common import Optimizer, guess_vector

R = Registry()
V = 'coniii.solvers.'
U = 'coniii.utils.'


def pair(n, i, j):
    return n + list(combinations(range(n), 2)).index((min(i, j), max(i, j)))


def others(n, r):
    return [j for j in range(n) if j != r]


def data(ctx, S, n, dom=(-1, 1), given=False):
    if given:       # samples of more spins, not all different
        return ctx.np.array([[dom[(r * r * (i + 2) + i // 2 + (r * i) // 3) % 7 % len(dom)] for i in range(n)] for r in range(S)])
    return ctx.np.array([[ctx.choice('s%d%d' % (r, i), dom) for i in range(n)] for r in range(S)])


def compare(ctx, v, grad, rows, dim, what):
    """v must be the sum over rows of log(1 + exp(-2 a)) with a = sum of c * p over (c, p, index) triples; grad its
    gradient with respect to the indexed entries."""
    args = [2 * ctx.sum([c * p for c, p, _ in t]) for t in rows]
    prod = 1
    for a in args:
        prod = prod * (1 + ctx.exp(-a))
    ctx.eq(ctx.exp(v), prod, '%s: negative log likelihood' % what)
    ctx.check(grad is not None and grad.size == dim, 'gradient given')
    for k in range(dim):
        g = ctx.sum([ctx.sum([-2 * c / (1 + ctx.exp(a)) for c, _, i in t if i == k]) for t, a in zip(rows, args)])
        ctx.eq(grad[k], g, '%s: gradient %d' % (what, k))


@R.harness(encodes=[V + 'Pseudo.solve', V + 'Pseudo._solve_ising', V + 'Pseudo.__init__', U + 'replace_diag', U + 'zero_diag',
                    U + 'define_pseudo_ising_helper_functions.get_multipliers_r',
                    U + 'define_pseudo_ising_helper_functions.calc_observables_r'],
           bound='n = 2..4 spins (thorough 5), every data set of 1..2 samples (3 for n = 2), one of 9 samples of 6 spins, all real trial parameters, guesses '
           'and per-spin solutions', max_paths=20000, budget=300, tol=1e-5,
           cases=[dict(n=n, S=S, guess=g, full=f) for n, S, g, f in ((2, 1, True, False), (2, 2, False, True),
                                                                     (3, 1, True, True), (3, 2, False, False),
                                                                     (4, 1, True, False), (2, 3, True, False),
                                                                     (3, 1, 'int', False))] + [
               dict(n=6, S=9, guess=True, full=False, given=True)],
           thorough=[dict(n=5, S=1, guess=True, full=False), dict(n=3, S=3, guess=True, full=False),
                     dict(n=4, S=2, guess=True, full=True)])
def ising(ctx, n, S, guess, full, given=False):
    ctx.exact_logs()
    sv = ctx.lib('solvers')
    m = n * (n + 1) // 2
    X = data(ctx, S, n, given=given)
    X0 = X.copy()
    s = sv.Pseudo(X, iprint=False)
    fake = Optimizer(ctx, probe=True)
    ctx.optimizer(sv, 'minimize', fake)
    kw = {}
    if guess:
        kw['initial_guess'] = g = guess_vector(ctx, 'g', m, guess)
        g0 = g.copy()
    r = s.solve(full_output=full, solver_kwargs={'method': 'BFGS', 'tol': 1e-9}, **kw)
    x = r[0] if full else r
    ctx.check(len(fake.calls) == n, 'one optimisation per spin')
    for k in range(n):
        _, x0, a = fake.calls[k]
        ctx.check(a.get('method') == 'BFGS' and a.get('tol') == 1e-9, 'options passed on')
        for c, j in enumerate([k] + others(n, k)):
            w = 0
            if guess:
                w = g0[k] if c == 0 else g0[pair(n, k, j)]
            ctx.eq(x0[c], w, 'spin %d starts from the given guess (entry %d)' % (k, c))
        t, v, gr = fake.probes[k]
        rows = [[(int(X0[q, k]) * (1 if c == 0 else int(X0[q, j])), t[c], c) for c, j in enumerate([k] + others(n, k))]
                for q in range(S)]
        compare(ctx, v, gr, rows, n, 'spin %d' % k)
    ctx.check(x.size == m, 'size of the result')
    sol = [fake.results[k]['x'] for k in range(n)]
    for i in range(n):
        ctx.eq(x[i], sol[i][0], 'field of spin %d' % i)
        for j in range(i + 1, n):
            a, b = sol[i][1 + others(n, i).index(j)], sol[j][1 + others(n, j).index(i)]
            ctx.eq(x[pair(n, i, j)], (a + b) / 2, 'coupling %d-%d is the average of both estimates' % (i, j))
    ctx.eq(s.multipliers, x, 'result kept')
    if full:
        ctx.check(len(r[1]) == n and all(p is q for p, q in zip(r[1], fake.results)), 'scipy output returned')
    if guess:
        ctx.eq(g, g0, 'guess unchanged')
    ctx.eq(X, X0, 'sample unchanged')


@R.harness(encodes=[V + 'Pseudo.solve', V + 'Pseudo._solve_general', V + 'Pseudo.__init__'],
           bound='n = 2, 3 spins (thorough 4), every data set of 1..2 samples, all real trial parameters; pairwise and triplet '
           'interactions', max_paths=20000, budget=300, tol=1e-5,
           cases=[dict(n=2, S=1, order=2, guess=True), dict(n=2, S=1, order=2, guess='int'), dict(n=2, S=2, order=2, guess=False),
                  dict(n=3, S=1, order=2, guess=True), dict(n=3, S=1, order=3, guess=False),
                  dict(n=3, S=2, order=2, guess=True), dict(n=4, S=3, order=2, guess=True, given=True), dict(n=4, S=2, order=3, guess=False, given=True)],
           thorough=[dict(n=4, S=1, order=2, guess=True), dict(n=4, S=1, order=3, guess=True),
                     dict(n=3, S=2, order=3, guess=True), dict(n=2, S=3, order=2, guess=True)])
def general(ctx, n, S, order, guess, given=False):
    ctx.exact_logs()
    sv = ctx.lib('solvers')
    terms = [t for o in range(1, order + 1) for t in combinations(range(n), o)]
    m = len(terms)
    X = data(ctx, S, n, given=given)
    X0 = X.copy()
    kw = {}
    if order == 3:
        # caller-supplied helpers and a model that is not one of the special cases
        def mult(r, p):
            ix = [k for k, t in enumerate(terms) if r in t]
            return p[ctx.np.array(ix)], ix

        def obs(r, Y):
            ix = [k for k, t in enumerate(terms) if r in t]
            out = ctx.np.zeros((len(Y), len(ix)))
            for q in range(len(Y)):
                for c, k in enumerate(ix):
                    v = 1
                    for i in terms[k]:
                        v = v * Y[q, i]
                    out[q, c] = v
            return out

        class M:
            pass
        kw = dict(model=M(), get_multipliers_r=mult, calc_observables_r=obs, k=2,
                  calc_observables=lambda Y: ctx.np.zeros((len(Y), m)))
    s = sv.Pseudo(X, iprint=False, **kw)
    fake = Optimizer(ctx, probe=True)
    ctx.optimizer(sv, 'minimize', fake)
    a = {} if order == 3 else {'force_general': True}
    g0 = ctx.np.zeros(m)
    if guess:
        a['initial_guess'] = g = guess_vector(ctx, 'g', m, guess)
        g0 = g.copy()
    x, so = s.solve(full_output=True, solver_kwargs={'tol': 1e-9}, **a)
    ctx.check(len(fake.calls) == 1, 'one optimisation')
    _, x0, k = fake.calls[0]
    ctx.check(k.get('tol') == 1e-9, 'options passed on')
    ctx.eq(x0, g0, 'initial guess')
    ctx.eq(x, fake.results[0]['x'], 'result returned')
    ctx.eq(s.multipliers, fake.results[0]['x'], 'result kept')
    ctx.check(so is fake.results[0], 'scipy output returned')
    t, v, gr = fake.probes[0]
    rows = []
    for q in range(S):
        for r in range(n):
            row = []
            for k, tm in enumerate(terms):
                if r in tm:
                    c = 1
                    for i in tm:
                        c *= int(X0[q, i])
                    row.append((c, t[k], k))
            rows.append(row)
    compare(ctx, v, gr, rows, m, 'sum over spins')
    if guess:
        ctx.eq(g, g0, 'guess unchanged')
    ctx.eq(X, X0, 'sample unchanged')


@R.harness(encodes=[U + 'define_pseudo_ising_helper_functions.get_multipliers_r',
                    U + 'define_pseudo_ising_helper_functions.calc_observables_r'],
           bound='n = 2..6, 14 spins, 2 rows, all real parameters', cases=[dict(n=n) for n in (2, 3, 4, 5, 6, 14)])
def helpers(ctx, n):
    ut = ctx.lib('utils')
    gm, co = ut.define_pseudo_ising_helper_functions(n)
    p = ctx.reals('p', n * (n + 1) // 2)
    X = ctx.ints('s', (2, n), (-1, 1))
    for r in range(n):
        mu, ix = gm(r, p)
        o = co(r, X)
        ctx.check(len(mu) == n and len(ix) == n and tuple(o.shape) == (2, n), 'sizes')
        want = [r] + [pair(n, r, j) for j in others(n, r)]
        for c, (w, j) in enumerate(zip(want, [r] + others(n, r))):
            ctx.eq(ix[c], w, 'index %d of spin %d' % (c, r))
            ctx.eq(mu[c], p[w], 'parameter %d of spin %d' % (c, r))
            for q in range(2):
                ctx.eq(o[q, c], X[q, r] * (1 if c == 0 else X[q, j]), 'observable %d of spin %d' % (c, r))
