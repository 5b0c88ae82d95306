"""C28: pseudo_inverse_ising maximises the conditional likelihoods of the model with energy f J f."""
from itertools import combinations, product
from vf.engine import Registry

R = Registry()
P = 'coniii.pseudo_inverse_ising.'


def weight(ctx, r, Jr, f):
    """Boltzmann weight exp(-fJf) of a {0,1} state as a function of f_r (the factors without f_r cancel)."""
    return ctx.exp(-f[r] * (Jr[r] + 2 * ctx.sum([Jr[i] * f[i] for i in range(len(f)) if i != r])))


def conditional(ctx, r, Jr, f, min_size):
    """Probability of f_r given the other spins, for the model without states of less than min_size spins."""
    w = {}
    for x in (0, 1):
        g = [x if i == r else v for i, v in enumerate(f)]
        w[x] = weight(ctx, r, Jr, g) if sum(g) >= min_size else 0
    return w[f[r]], w[0] + w[1]


def samples(ctx, K, n, min_size=0, kind='array'):
    s = [[ctx.choice('f%d%d' % (k, i), (0, 1)) for i in range(n)] for k in range(K)]
    if any(sum(x) < min_size for x in s):
        ctx.assume(False)
    return s, (ctx.np.array(s) if kind == 'array' else ctx.np.array([[float(x) for x in r] for r in s]) if kind == 'float' else
               [list(x) for x in s])


def likelihood(ctx, ll, s, r, Jr, min_size, label):
    a, b = 1, 1
    for f in s:
        x, y = conditional(ctx, r, Jr, f, min_size)
        a, b = a * x, b * y
    ctx.eq(ctx.exp(ll) * b, a, label)


@R.harness(encodes=[P + f for f in ('conditionalLogLikelihood', 'conditionalJacobian', 'conditionalHessian', 'pairCoocMat')], max_paths=20000,
           bound='up to 3 spins (thorough 4) and 2 samples, every sample, all couplings, minSize 0..2',
           cases=[dict(n=2, K=1, r=0, ms=0, kind='array'), dict(n=2, K=2, r=1, ms=0, kind='list'), dict(n=3, K=1, r=1, ms=0, kind='float'),
                  dict(n=3, K=1, r=2, ms=2, kind='array'), dict(n=2, K=2, r=0, ms=1, kind='array'), dict(n=3, K=1, r=0, ms=1, kind='list'),
                  dict(n=3, K=2, r=1, ms=0, kind='array'), dict(n=4, K=1, r=2, ms=2, kind='array')],
           thorough=[dict(n=3, K=3, r=1, ms=0, kind='array'), dict(n=4, K=2, r=0, ms=1, kind='array'), dict(n=5, K=1, r=2, ms=2, kind='array')])
def conditionals(ctx, n, K, r, ms, kind):
    pi = ctx.lib('pseudo_inverse_ising')
    s, X = samples(ctx, K, n, ms, kind)
    keep = ctx.np.array(s)
    Jr = ctx.reals('J', n)
    J0 = Jr.copy()
    ll = lambda x: -pi.conditionalLogLikelihood(r, X, x, minSize=ms)
    likelihood(ctx, -ll(Jr), s, r, list(Jr), ms, 'conditional probability of the samples')
    jac = pi.conditionalJacobian(r, X, Jr, minSize=ms)
    hes = pi.conditionalHessian(r, X, Jr, minSize=ms)
    ctx.check(tuple(jac.shape) == (n,) and tuple(hes.shape) == (n, n), 'shapes')
    ctx.gradient_check(ll, Jr, jac, 'gradient')
    for i in range(n):
        ctx.gradient_check(lambda x: pi.conditionalJacobian(r, X, x, minSize=ms)[i], Jr, hes[i], 'Hessian')
    B = 2. * keep
    B[:, r] = 1.
    ctx.eq(pi.conditionalHessian(r, X, Jr, minSize=ms, pairCoocRhat=pi.pairCoocMat(B)), hes, 'Hessian from given cooccurrences')
    ctx.eq(ctx.np.array(X), keep, 'samples unchanged')
    ctx.eq(Jr, J0, 'couplings unchanged')


@R.harness(encodes=[P + 'pseudoLogLikelihood'], bound='up to 3 spins and 2 samples, every sample, all symmetric matrices', max_paths=20000,
           cases=[dict(n=2, K=2, ms=0), dict(n=3, K=1, ms=0), dict(n=3, K=1, ms=1)], thorough=[dict(n=3, K=2, ms=0), dict(n=4, K=1, ms=2)])
def pseudo(ctx, n, K, ms):
    pi = ctx.lib('pseudo_inverse_ising')
    s, X = samples(ctx, K, n, ms)
    J = ctx.np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            J[i, j] = ctx.real('J%d%d' % (i, j))
            J[j, i] = J[i, j]
    a, b = 1, 1
    for r in range(n):
        for f in s:
            x, y = conditional(ctx, r, list(J[r]), f, ms)
            a, b = a * x, b * y
    ctx.eq(ctx.exp(pi.pseudoLogLikelihood(X, J, ms)) * b, a, 'product of the conditional probabilities')


@R.harness(encodes=[P + 'pseudoInverseIsing'], bound='2 and 3 spins, 3 samples, every sample in which no spin is constant, arbitrary minima', max_paths=20000,
           cases=[dict(n=2, K=2, ms=0), dict(n=2, K=3, ms=1), dict(n=3, K=2, ms=0)], thorough=[dict(n=3, K=3, ms=2), dict(n=4, K=2, ms=0)])
def inverse(ctx, n, K, ms):
    pi = ctx.lib('pseudo_inverse_ising')
    s, X = samples(ctx, K, n, 0)
    used = [f for f in s if sum(f) >= ms]
    if not used or any(len({f[i] for f in used}) == 1 for i in range(n)):
        ctx.assume(False)
    asked = []

    def fake(f, x0, fprime=None, fhess=None, **kw):
        r = len(asked)
        y = ctx.reals('at%d' % r, n)
        likelihood(ctx, -f(y), used, r, list(y), ms, 'objective of spin %d' % r)
        if fprime is not None:
            ctx.gradient_check(f, y, fprime(y), 'gradient')
        if fhess is not None:
            h = fhess(y)
            for i in range(n):
                ctx.gradient_check(lambda x: fprime(x)[i], y, h[i], 'Hessian')
        x = ctx.reals('min%d' % r, n)
        asked.append(x)
        return x.copy()
    ctx.optimizer(pi, 'fmin_ncg', fake)
    J = pi.pseudoInverseIsing(X, minSize=ms)
    ctx.check(len(asked) == n, 'one minimisation per spin')
    for i in range(n):
        for j in range(n):
            ctx.eq(J[i, j], (asked[i][j] + asked[j][i]) / 2, 'symmetric part of the minima')


# -- the deprecated methods of Pseudo ---------------------------------------------------------------
V = 'coniii.solvers.Pseudo.'


def solver(ctx, X):
    return ctx.lib('solvers').Pseudo(X, iprint=False)


@R.harness(encodes=[V + f for f in ('cond_log_likelihood', 'cond_jac', 'cond_hess', 'pair_cooc_mat', 'pseudo_log_likelihood')], max_paths=20000,
           bound='2 and 3 spins, up to 2 samples, every sample, all couplings', cases=[dict(n=2, K=2), dict(n=3, K=1)], thorough=[dict(n=3, K=2)])
def deprecated_conditionals(ctx, n, K):
    s, X = samples(ctx, K, n, 0, 'float')
    sv = solver(ctx, 2 * X - 1)
    J = ctx.np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            J[i, j] = ctx.real('J%d%d' % (i, j))
            J[j, i] = J[i, j]
    a, b = 1, 1
    for r in range(n):
        Jr = ctx.reals('r%d' % r, n)
        ll = lambda x: -sv.cond_log_likelihood(r, X, x)
        likelihood(ctx, -ll(Jr), s, r, list(Jr), 0, 'conditional probability')
        hes = sv.cond_hess(r, X, Jr)
        ctx.gradient_check(ll, Jr, sv.cond_jac(r, X, Jr), 'gradient')
        for i in range(n):
            ctx.gradient_check(lambda x: sv.cond_jac(r, X, x)[i], Jr, hes[i], 'Hessian')
        for f in s:
            x, y = conditional(ctx, r, list(J[r]), f, 0)
            a, b = a * x, b * y
    ctx.eq(ctx.exp(sv.pseudo_log_likelihood(X, J)) * b, a, 'product of the conditional probabilities')


@R.harness(encodes=[V + '_solve_ising_deprecated'], max_paths=20000, bound='2 and 3 spins, 2 samples in which no spin is constant, arbitrary minima',
           cases=[dict(n=2, K=2), dict(n=3, K=2)], thorough=[dict(n=2, K=3)])
def deprecated_solver(ctx, n, K):
    """The solution has the energies f J f of the symmetrised minima, in the {-1,1} basis."""
    s, X = samples(ctx, K, n, 0, 'float')
    if any(len({f[i] for f in s}) == 1 for i in range(n)):
        ctx.assume(False)
    sv = solver(ctx, 2 * X - 1)
    asked = []

    def fake(f, x0, fprime=None, fhess=None, **kw):
        r = len(asked)
        y = ctx.reals('at%d' % r, n)
        likelihood(ctx, -f(y), s, r, list(y), 0, 'objective of spin %d' % r)
        ctx.gradient_check(f, y, fprime(y), 'gradient')
        h = fhess(y)
        for i in range(n):
            ctx.gradient_check(lambda x: fprime(x)[i], y, h[i], 'Hessian')
        asked.append(ctx.reals('min%d' % r, n))
        return asked[-1].copy()
    ctx.optimizer(ctx.lib('solvers'), 'fmin_ncg', fake)
    p = sv._solve_ising_deprecated()
    ctx.check(tuple(p.shape) == (n * (n + 1) // 2,), 'number of parameters')
    J = [[(asked[i][j] + asked[j][i]) / 2 for j in range(n)] for i in range(n)]

    def energy(t):
        return -ctx.sum([p[i] * t[i] for i in range(n)]) - ctx.sum([p[n + q] * t[i] * t[j] for q, (i, j) in enumerate(combinations(range(n), 2))])
    for f in product((0, 1), repeat=n):
        ctx.eq(energy([2 * x - 1 for x in f]) - energy([-1] * n), ctx.sum([J[i][j] * f[i] * f[j] for i in range(n) for j in range(n)]),
               'energy of %s' % (f,))
