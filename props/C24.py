"""C24: regularised mean field: the mean-field parameters and the choice of their regularisation."""
from itertools import combinations
from vf.engine import Registry
from props.C30 import Twice
from props.C23 import energies_match, expected, pairs

R = Registry()
V = 'coniii.solvers.RegularizedMeanField.'
M = 'coniii.mean_field_ising.'


class Eig:
    """Stand-in for the eigendecomposition of a symmetric matrix: arbitrary positive eigenvalues and eigenvectors."""

    def __init__(self, ctx, n):
        self.ctx, self.args = ctx, []
        self.w = ctx.reals('mu', n, pos=True)
        self.v = ctx.reals('vec', (n, n))

    def __call__(self, A, *a, **k):
        self.args.append(A.copy())
        return self.w.copy(), self.v.copy()


def frequencies(ctx, n):
    C = ctx.np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            C[i, j] = ctx.real('c%d%d' % (i, j), lo=ctx.frac(1, 100), hi=ctx.frac(99, 100))
    return C


def inverse(A):
    """(determinant, matrix of cofactors) of a 2 x 2 or 3 x 3 symmetric matrix."""
    k = len(A)
    if k == 2:
        return A[0][0] * A[1][1] - A[0][1] * A[1][0], [[A[1][1], -A[0][1]], [-A[1][0], A[0][0]]]

    def minor(a, b):
        r, c = [i for i in range(3) if i != a], [i for i in range(3) if i != b]
        return (-1)**(a + b) * (A[r[0]][c[0]] * A[r[1]][c[1]] - A[r[0]][c[1]] * A[r[1]][c[0]])
    cof = [[minor(a, b) for b in range(3)] for a in range(3)]
    return sum(A[0][b] * cof[0][b] for b in range(3)), cof


@R.harness(encodes=[M + 'SmeanField', M + 'JmeanField', M + 'coocCluster', M + 'symmetrizeUsingUpper', M + 'replaceDiag', M + 'zeroDiag',
                    M + 'JfullFromCluster', M + 'analyticEntropy'],
           bound='clusters of 2 and 3 of up to 4 spins in any order, every cooccurrence matrix with entries between 0 and 1, every eigendecomposition, '
           'with and without prior, independent terms, entropy of the model, and by the inverse instead', tol=1e-5,
           cases=[dict(n=2, c=None, prior=False, opt=''), dict(n=3, c=None, prior=False, opt=''), dict(n=3, c=(0, 2), prior=True, opt=''),
                  dict(n=4, c=(3, 1), prior=False, opt=''), dict(n=3, c=(2, 1), prior=True, opt='dependent'),
                  dict(n=2, c=None, prior=False, opt='model'), dict(n=3, c=(1, 2), prior=False, opt='inverse'),
                  dict(n=3, c=None, prior=False, opt='inverse')],
           thorough=[dict(n=4, c=(0, 2, 3), prior=True, opt=''), dict(n=3, c=(2, 0, 1), prior=True, opt='')])
def parameters(ctx, n, c, prior, opt):
    ctx.exact_logs()
    mf = ctx.lib('mean_field_ising')
    C = frequencies(ctx, n)
    C0 = C.copy()
    full = c is None
    c = c or tuple(range(n))
    k = len(c)
    eig = Eig(ctx, k)
    for mod in (mf.scipy.linalg, ctx.np.linalg):
        for nm in ('eig', 'eigh'):
            ctx.patch(mod, nm, eig)
        for nm in ('svdvals', 'eigvalsh', 'eigvals'):
            ctx.patch(mod, nm, lambda A, *a, **kw: eig(A)[0])
    lam = ctx.real('lam', lo=ctx.frac(1, 10), hi=5) if prior else 0
    kw = dict(meanFieldPriorLmbda=lam, numSamples=8) if prior else {}
    kw.update({'dependent': {'indTerm': False}, 'model': {'alternateEnt': True}, 'inverse': {'useRegularizedEq': False}}.get(opt, {}))
    p = [C[i, i] for i in c]

    def cov(a, b):
        i, j = min(c[a], c[b]), max(c[a], c[b])
        return C0[i, j] - p[a] * p[b]
    den = [[ctx.sqrt(p[a] * (1 - p[a]) * p[b] * (1 - p[b])) for b in range(k)] for a in range(k)]
    if opt == 'inverse':
        rho = [[cov(a, b) / den[a][b] for b in range(k)] for a in range(k)]
        det, cof = inverse(rho)
        ctx.assume(ctx.or_(ctx.lt_(ctx.frac(1, 1000), det), ctx.lt_(det, -ctx.frac(1, 1000))))
    if full:
        J = mf.JmeanField(C, **kw)
        ent = mf.SmeanField(list(c), C, **kw)[0]
    else:
        ent, J = mf.SmeanField(list(c), C, **kw)
    A = eig.args[0]
    for a in range(k):
        for b in range(k):
            ctx.eq(A[a, b] * den[a][b], cov(a, b), 'correlation matrix')
    g = lam / 8 if prior else 0
    root = []
    for w in eig.w:
        # the positive root of x^2 - (w - g) x - g = 0 (the eigenvalue itself without prior)
        root.append((w - g + ctx.sqrt((w - g) * (w - g) + 4 * g)) / 2 if prior else w)
    if opt == 'inverse':
        Jm = [[0 if a == b else cof[a][b] / det / den[a][b] for b in range(k)] for a in range(k)]
    else:
        Jm = [[0 if a == b else ctx.sum([eig.v[a, q] * eig.v[b, q] / root[q] for q in range(k)]) / den[a][b]
               for b in range(k)] for a in range(k)]
    for i in range(n):
        for j in range(n):
            if i in c and j in c:
                a, b = c.index(i), c.index(j)
                if a != b:
                    ctx.eq(J[i, j], Jm[a][b] / 2, 'coupling')
                    ctx.eq(J[i, j], J[j, i], 'symmetric')
                else:
                    h = 0 if opt == 'dependent' else -ctx.log(p[a] / (1 - p[a]))
                    h = h + ctx.sum([Jm[a][x] * (cov(a, x) * (p[a] - ctx.frac(1, 2)) / (p[a] * (1 - p[a])) - p[x]) for x in range(k) if x != a])
                    ctx.eq(J[i, i], h, 'field')
            else:
                ctx.eq(J[i, j], 0, 'zero outside the cluster')
    if opt == 'model':
        ctx.eq(ent, mf.analyticEntropy(J), 'entropy of the model found')
        return
    S = 0 if opt == 'dependent' else ctx.sum([-x * ctx.log(x) - (1 - x) * ctx.log(1 - x) for x in p])
    ctx.eq(ent, S + ctx.sum([ctx.log(x) + (0 if opt == 'inverse' else 1 - x) for x in root]) / 2, 'entropy')
    ctx.eq(C, C0, 'cooccurrences unchanged')


@R.harness(encodes=[M + 'SmeanField'], bound='2 and 3 spins that all correlate in the same way, with and without prior; every orthonormal (where '
           'the code asks for a symmetric decomposition) or merely normalised choice of eigenvectors', tol=1e-5,
           cases=[dict(n=n, prior=p) for n in (2, 3) for p in (False, True)])
def degenerate(ctx, n, prior):
    """The parameters do not depend on the eigenvectors chosen for a repeated eigenvalue."""
    ctx.exact_logs()
    mf = ctx.lib('mean_field_ising')
    r = ctx.real('r', lo=ctx.frac(1, 10), hi=ctx.frac(4, 5))        # the correlation of every pair
    half = ctx.frac(1, 2)
    C = ctx.np.zeros((n, n))
    for i in range(n):
        C[i, i] = half
        for j in range(i + 1, n):
            C[i, j] = (1 + r) / 4
    w = [1 - r] * (n - 1) + [1 + (n - 1) * r]
    if ctx.symbolic:
        t = [ctx.real('t%d' % i, lo=-3, hi=3) for i in range(2)]

        def vectors(symmetric):
            v = ctx.np.zeros((n, n))
            for i in range(n):
                v[i, n - 1] = 1 / ctx.sqrt(ctx.frac(n))
            if n == 2:
                v[0, 0], v[1, 0] = ctx.sqrt(half), -ctx.sqrt(half)
                return v
            # a = (1,-1,0)/sqrt 2 and b = (1,1,-2)/sqrt 6 span the space of the repeated eigenvalue
            a = [ctx.sqrt(half), -ctx.sqrt(half), 0]
            b = [ctx.sqrt(ctx.frac(1, 6)), ctx.sqrt(ctx.frac(1, 6)), -2 * ctx.sqrt(ctx.frac(1, 6))]
            for q in range(2):
                x = t[0] if symmetric else t[q]
                co, si = (1 - x * x) / (1 + x * x), 2 * x / (1 + x * x)
                if symmetric and q == 1:
                    co, si = -si, co
                for i in range(3):
                    v[i, q] = co * a[i] + si * b[i]
            return v
        for mod in (mf.scipy.linalg, ctx.np.linalg):
            ctx.patch(mod, 'eig', lambda A, *a, **k: (ctx.np.array(w), vectors(False)))
            ctx.patch(mod, 'eigh', lambda A, *a, **k: (ctx.np.array(w), vectors(True)))
    lam = ctx.real('lam', lo=ctx.frac(1, 10), hi=5) if prior else 0
    kw = dict(meanFieldPriorLmbda=lam, numSamples=8) if prior else {}
    ent, J = mf.SmeanField(list(range(n)), C, **kw)
    g = lam / 8 if prior else 0
    root = [(x - g + ctx.sqrt((x - g) * (x - g) + 4 * g)) / 2 if prior else x for x in w]
    # the inverse of a matrix with two eigenvalues
    off = (1 / root[-1] - 1 / root[0]) / n * 4
    for i in range(n):
        for j in range(n):
            if i != j:
                ctx.eq(J[i, j], off / 2, 'coupling')
        ctx.eq(J[i, i], -(n - 1) * off / 2, 'field')


class Model:
    """A model about whose samples nothing is known; keeps what it is asked to sample from."""

    def __init__(self, ctx, n, size):
        self.ctx, self.n, self.sampleSize = ctx, n, size
        self.runs, self.theta, self.rng = [], None, Twice(ctx).generator(0)
        self.own = self.rng

    def setup_sampler(self, **kw):
        pass

    def set_rng(self, rng):
        self.rng = rng

    def set_multipliers(self, x):
        self.theta = x.copy()

    def generate_sample(self, *a, **k):
        self.sample = self.ctx.ints('x%d' % len(self.runs), (2, self.n), (-1, 1))
        self.runs.append((self.theta, self.sample.copy(), self.rng, self.rng.randint(2**31 - 1)))


class MeanField:
    def __init__(self, ctx, n, cooc, S):
        self.ctx, self.n, self.cooc, self.S, self.calls = ctx, n, cooc, S, []

    def __call__(self, C, meanFieldPriorLmbda=0., numSamples=None, **k):
        n = self.n
        for i in range(n):
            for j in range(i, n):
                self.ctx.eq(C[i, j], self.cooc[i][j], 'cooccurrences of the data')
        self.ctx.check(numSamples == self.S, 'number of samples')
        J = self.ctx.np.zeros((n, n))
        v = iter(self.ctx.reals('J%d' % len(self.calls), n * (n + 1) // 2))
        for i in range(n):
            for j in range(i, n):
                J[i, j] = next(v)
                J[j, i] = J[i, j]
        self.calls.append((meanFieldPriorLmbda, J.copy()))
        return J


DATA = {2: [[[1, 1], [1, -1], [-1, 1], [-1, 1]], [[1, -1], [-1, -1], [-1, -1]]],
        3: [[[1, 1, -1], [1, -1, -1], [-1, 1, 1], [-1, 1, -1], [1, 1, 1]]]}


def setup(ctx, n, d):
    sv, mf = ctx.lib('solvers'), ctx.lib('mean_field_ising')
    X = ctx.np.array(DATA[n][d])
    S = len(X)
    cooc = [[ctx.frac(sum((r[i] + 1) * (r[j] + 1) // 4 for r in DATA[n][d]), S) for j in range(n)] for i in range(n)]
    md = Model(ctx, n, 2)
    s = sv.RegularizedMeanField(X, model=md, calc_observables=lambda x: x, sample_size=2)
    JM = MeanField(ctx, n, cooc, S)
    ctx.patch(mf, 'JmeanField', JM)
    pm = ctx.sum([cooc[i][i] for i in range(n)]) / n
    return sv, s, md, JM, cooc, S, pm


def check_run(ctx, n, run, J, cooc, S, value):
    theta, X, _, _ = run
    energies_match(ctx, theta, J, n, 'model sampled')
    tot = 0
    for i, j in pairs(n):
        e = ctx.sum([(X[r, i] + 1) * (X[r, j] + 1) for r in range(2)]) * ctx.frac(1, 8)
        b = (cooc[i][j] * S + 1) / (S + 2)
        tot = tot + (e - cooc[i][j]) * (e - cooc[i][j]) / (b * (1 - b) / S)
    # (the code's standard deviations are floating-point square roots of the concrete data)
    eps = ctx.frac(1, 10 ** 6)
    ctx.le(value, tot + eps, 'objective: squared z-scores of the cooccurrences')
    ctx.le(tot, value + eps, 'objective: squared z-scores of the cooccurrences')


@R.harness(encodes=[V + 'solve', V + '__init__', M + 'isingDeltaCooc', M + 'coocStdevsFlat', M + 'cooccurrence_matrix', M + 'coocSampleCovariance',
                    'coniii.utils.convert_params', 'coniii.utils.zero_diag'],
           bound='n = 2, 3 spins, listed data, every mean-field solution, every sample of 2 states, every trial strength and result of '
           'the minimiser', tol=1e-5,
           cases=[dict(n=2, d=0, reset=True), dict(n=3, d=0, reset=True), dict(n=2, d=1, reset=False)])
def search(ctx, n, d, reset):
    sv, s, md, JM, cooc, S, pm = setup(ctx, n, d)
    out = []

    def minimize(f, *a, **k):
        ctx.check(k.get('bracket') is None, 'no bracket')
        for q in range(2):
            t = ctx.real('t%d' % q, pos=True)
            out.append((t, f(t)))
        return {'x': ctx.real('best', pos=True), 'success': True}
    ctx.optimizer(sv, 'minimize_scalar', minimize)
    m = s.solve(reset_rng=reset)
    ctx.check(len(out) == 2 and len(md.runs) == 2 and len(JM.calls) == 3, 'one sampling run per trial')
    for q in range(2):
        lam, J = JM.calls[q]
        ctx.eq(lam * pm * pm * (1 - pm) * (1 - pm), out[q][0], 'strength of the prior')
        check_run(ctx, n, md.runs[q], J, cooc, S, out[q][1])
        if reset:
            ctx.eq(md.runs[q][3], md.runs[0][3], 'generator reset to the same state')
        else:
            ctx.check(md.runs[q][2] is md.own, 'own generator')
    lam, J = JM.calls[2]
    ctx.eq(lam * pm * pm * (1 - pm) * (1 - pm), ctx.real('best', pos=True), 'strength found')
    energies_match(ctx, m, J, n, 'result')
    ctx.eq(s.multipliers, m, 'result kept')


def index_of_min(ctx, v, got, label):
    for x in v:
        ctx.le(v[got], x, label)


@R.harness(encodes=[V + 'bracket1d'], bound='3..5 grid points (thorough 6), all function values', max_paths=4000,
           cases=[dict(k=3), dict(k=4), dict(k=5)], thorough=[dict(k=6)])
def bracket(ctx, k):
    sv, s, md, JM, cooc, S, pm = setup(ctx, 2, 0)
    f = ctx.reals('f', k)
    xs = [ctx.frac(q, 2) for q in range(k)]
    try:
        b = s.bracket1d(xs, list(f))
    except Exception:
        ctx.check(ctx.or_(ctx.and_(*[ctx.le_(f[0], y) for y in f]), ctx.and_(*[ctx.le_(f[k - 1], y) for y in f])),
                  'refused only if the minimum is at the boundary')
        return
    ix = [int(2 * ctx.concrete(x)) for x in b]
    ctx.check(len(ix) == 3 and ix[0] < ix[1] < ix[2], 'increasing')
    index_of_min(ctx, list(f), ix[1], 'centre is the minimum')
    index_of_min(ctx, list(f)[:ix[1]], ix[0], 'lowest point on the left')
    index_of_min(ctx, list(f)[ix[1] + 1:], ix[2] - ix[1] - 1, 'lowest point on the right')


@R.harness(encodes=[V + 'solve', V + 'bracket1d'], bound='n = 2 spins, listed data, grid of 3 points, every mean-field solution and sample',
           tol=1e-5, max_paths=4000, cases=[dict()])
def bracketed(ctx):
    n = 2
    sv, s, md, JM, cooc, S, pm = setup(ctx, n, 0)
    seen = []

    def minimize(f, *a, **k):
        seen.append(k.get('bracket'))
        return {'x': ctx.real('best', pos=True), 'success': True}
    ctx.optimizer(sv, 'minimize_scalar', minimize)

    grid = []

    def br(xs, fs):
        grid.append((list(xs), list(fs)))
        return tuple(xs[:3])
    s.bracket1d = br
    m = s.solve(bracket=(1, 3), n_grid_points=3)
    ctx.check(len(grid) == 1 and len(seen) == 1, 'one search')
    for q in range(3):
        ctx.eq(grid[0][0][q], q + 1, 'grid')
        lam, J = JM.calls[q]
        ctx.eq(lam * pm * pm * (1 - pm) * (1 - pm), q + 1, 'strength at the grid point')
        check_run(ctx, n, md.runs[q], J, cooc, S, grid[0][1][q])
        ctx.eq(seen[0][q], q + 1, 'bracket handed to the minimiser')
    energies_match(ctx, m, JM.calls[-1][1], n, 'result')
