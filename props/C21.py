"""C21: the Monte Carlo histogram solvers iterate sampling and learning steps as specified."""
from itertools import combinations
from vf.engine import Registry
from props.solver_common import guess_vector

R = Registry()
V = 'coniii.solvers.'


class Sampled:
    """A model about whose samples nothing is known: every sampling run yields new, arbitrary averages."""

    def __init__(self, ctx, m, fit, S):
        self.ctx, self.m, self.fit, self.sampleSize = ctx, m, fit, S
        self.multipliers = ctx.np.zeros(m)
        self.runs, self.avs, self.learn, self.sample = [], {}, [], None
        self.setup = None

    def setup_sampler(self, **kw):
        self.setup = kw
        self.sampleSize = kw.get('sample_size', self.sampleSize)

    def generate_sample(self, n_iters, burn_in, multipliers=None, sample_size=None, generate_kwargs={}, **kw):
        if multipliers is None:
            multipliers = self.multipliers
        self.runs.append(dict(n_iters=n_iters, burn_in=burn_in, theta=multipliers.copy(), kw=generate_kwargs,
                              size=sample_size or self.sampleSize))
        self.sample = self.ctx.np.zeros((2, 2), dtype=int) + len(self.runs)

    def current(self, X):
        return int(X[0, 0])

    def averages(self, X):
        k = self.current(X)
        if k not in self.avs:
            self.avs[k] = self.ctx.reals('sampled%d' % k, (2, self.m))
        return self.avs[k].copy()

    def mean(self, k):
        """Averages of the k-th sampling run (1-based) over the fitted observables."""
        o = self.averages(self.ctx.np.zeros((2, 2), dtype=int) + k)
        return [(o[0, i] + o[1, i]) / 2 for i in self.fit]

    def mch(self, X, dl):
        o = self.ctx.reals('predicted%d' % len(self.learn), self.m)
        self.learn.append((self.current(X), dl.copy(), o))
        return o.copy()


def make(ctx, sparse, m, fit, S=100, **kw):
    sv = ctx.lib('solvers')
    md = Sampled(ctx, m, fit, S)
    if sparse:
        kw['parameter_ix'] = ctx.np.array(fit)
    n = {3: 2, 6: 3}[m]
    s = getattr(sv, 'SparseMCH' if sparse else 'MCH')(n, model=md, calc_observables=md.averages,
                                                      mch_approximation=md.mch, sample_size=S, iprint=False, **kw)
    ctx.check(md.setup is not None and md.setup.get('sample_size') == S, 'sampler set up with the sample size')
    return sv, s, md


def norm2(ctx, v):
    return ctx.sum([x * x for x in v])


def larger(ctx, v, r):
    """|v| > r for r >= 0."""
    return ctx.lt_(r * r, norm2(ctx, v))


def anyabs(ctx, v, r):
    return ctx.or_(*[ctx.or_(ctx.lt_(r, x), ctx.lt_(x, -r)) for x in v])


def expect_learning(ctx, steps, est, c, fit, m, k, eta, maxd, maxn, maxsteps):
    """The learning recurrence; returns the change of the fitted parameters."""
    ctx.check(1 <= len(steps) <= maxsteps + 1, 'number of learning steps')
    d = [0] * len(fit)
    dist2 = None
    for j, (run, dl, o) in enumerate(steps):
        ctx.check(run == k, 'prediction from the current sample')
        f = eta
        if dist2 is not None:
            f = eta * ctx.ite(ctx.lt_(dist2, 1), ctx.sqrt(dist2), 1)
        d = [x - (e - y) * f for x, e, y in zip(d, est, c)]
        ctx.check(dl.size == m, 'size of the change')
        for i in range(m):
            ctx.eq(dl[i], d[fit.index(i)] if i in fit else 0, 'step %d, parameter %d' % (j, i))
        d = [dl[i] for i in fit]
        est = [o[i] for i in fit]
        dist2 = norm2(ctx, [e - y for e, y in zip(est, c)])
        out = ctx.or_(larger(ctx, d, maxn), anyabs(ctx, d, maxd))
        if j < len(steps) - 1:
            ctx.check(ctx.not_(out), 'learning stops when the change is too large (step %d)' % j)
        elif len(steps) < maxsteps:
            ctx.check(out, 'learning stops early only when the change is too large')
    return d, est


FITS = [(False, 3, [0, 1, 2]), (True, 3, [0, 1, 2]), (True, 3, [1]), (True, 3, [0, 2]), (True, 6, [5]), (True, 6, [3, 4])]


@R.harness(encodes=[V + 'MCH.learn_parameters_mch', V + 'SparseMCH.learn_parameters_mch'], budget=300,
           bound='3 observables (sparse: subsets of 3 or 6), up to 2 learning steps (thorough 3), arbitrary predictions, '
           'all real errors, learning rate and limits',
           cases=[dict(sparse=s, m=m, fit=f, steps=k) for s, m, f in FITS for k in (1, 2)
                  if k == 1 or len(f) < 3],
           thorough=[dict(sparse=s, m=m, fit=f, steps=k) for s, m, f in FITS[:1] for k in (2,)] +
           [dict(sparse=s, m=m, fit=f, steps=3) for s, m, f in FITS if len(f) == 1])
def learning(ctx, sparse, m, fit, steps):
    sv, s, md = make(ctx, sparse, m, fit)
    md.generate_sample(1, 1)
    est = ctx.reals('est', len(fit))
    c = ctx.reals('c', len(fit))
    eta = ctx.real('eta', pos=True)
    maxd = ctx.real('maxd', pos=True)
    maxn = ctx.real('maxn', pos=True)
    lam = ctx.reals('lam', m)
    s._multipliers = lam.copy()
    e0, c0 = est.copy(), c.copy()
    kw = dict(maxdlamda=maxd, maxdlamdaNorm=maxn, eta=eta, maxLearningSteps=steps - 1)
    r = s.learn_parameters_mch(est, c, **kw)
    d, last = expect_learning(ctx, md.learn, list(e0), list(c0), fit, m, 1, eta, maxd, maxn, steps - 1)
    for i in range(m):
        ctx.eq(s._multipliers[i], lam[i] + (d[fit.index(i)] if i in fit else 0), 'parameter %d updated' % i)
    for j in range(len(fit)):
        ctx.eq(r[j], last[j], 'predicted averages returned')
    ctx.eq(c, c0, 'constraints unchanged')
    ctx.eq(est, e0, 'estimate unchanged')


@R.harness(encodes=[V + 'MCH.solve', V + 'SparseMCH.solve', V + 'MCH.learn_parameters_mch'], budget=400, max_paths=5000,
           bound='3 observables (sparse: subsets of 3 or 6), up to 2 rounds (thorough 3) of one learning step each, arbitrary '
           'samples and predictions, all real constraints, guesses and tolerances',
           cases=[dict(sparse=s, m=m, fit=f, maxiter=0, given=False, full=False, conv='dict') for s, m, f in FITS] +
           [dict(sparse=s, m=m, fit=f, maxiter=1, given=gi, full=True, conv=cv) for s, m, f, gi, cv in (
               (False, 3, [0, 1, 2], True, 'tuple'), (True, 3, [1], True, 'tuple'), (True, 6, [5], False, 'tuple'),
               (True, 3, [0, 2], True, 'none'), (False, 3, [0, 1, 2], 'int', 'none'), (True, 3, [1], 'int', 'none'),
               (True, 3, [2], False, 'dict'))],
           thorough=[dict(sparse=s, m=m, fit=f, maxiter=1, given=True, full=False, conv=c) for s, m, f in FITS
                     for c in ('none', 'tuple')] +
           [dict(sparse=True, m=m, fit=f, maxiter=2, given=g, full=True, conv='tuple') for m, f, g in
            ((3, [2], False), (3, [1], True), (6, [4], True))])
def rounds(ctx, sparse, m, fit, maxiter, given, full, conv):
    S = 100
    sv, s, md = make(ctx, sparse, m, fit, S)
    c = ctx.reals('c', len(fit))
    kw, sizes = {}, {}
    if given:
        g = guess_vector(ctx, 'guess', len(fit), given)
        g0 = g.copy()
        kw['initial_guess'] = g
        kw['constraints'] = c
        s.constraints = ctx.reals('unused', m)
        tol, tn = ctx.real('tol', pos=True), ctx.real('tolNorm', pos=True)
        kw.update(tol=tol, tolNorm=tn)
    else:
        g0 = ctx.np.zeros(len(fit))
        if sparse:
            s.constraints = ctx.reals('call', m)
            c = s.constraints[ctx.np.array(fit)]
        else:
            s.constraints = c
        tol, tn = ctx.frac(1, 10), ctx.frac(m, 10)
    eta, maxd = ctx.real('eta', pos=True), ctx.real('maxd', pos=True)
    etas = {}

    def setting(i):
        etas[i] = eta + i
        return {'eta': eta + i, 'maxdlamda': maxd, 'maxLearningSteps': 0}
    if conv == 'none':
        kw['learn_params_kwargs'] = {'eta': eta, 'maxdlamda': maxd, 'maxLearningSteps': 0}
    elif conv == 'dict':
        kw['custom_convergence_f'] = setting
    else:
        kw['custom_convergence_f'] = lambda i: (setting(i), S + 10 * i)
    gk = {'systematic_iter': True}
    r = s.solve(n_iters=7, burn_in=9, maxiter=maxiter, full_output=full, generate_kwargs=gk, **kw)
    lam = [g0[fit.index(i)] if i in fit else 0 for i in range(m)]
    k = len(md.learn)
    ctx.check(1 <= k <= maxiter + 1, 'number of rounds')
    ctx.check(len(md.runs) in (k + 1, k + 2), 'one sampling run before every learning step and one after the last')
    errs = []
    for j in range(k + 1):
        run = md.runs[j]
        ctx.check((run['n_iters'], run['burn_in'], run['kw']) == (7, 9, gk), 'sampling arguments')
        if conv == 'tuple' and j > 0:
            ctx.check(run['size'] == S + 10 * (j - 1), 'sample size of round %d' % j)
        for i in range(m):
            ctx.eq(run['theta'][i], lam[i], 'run %d samples the current parameter %d' % (j, i))
        errs.append([a - y for a, y in zip(md.mean(j + 1), c)])
        good = ctx.and_(ctx.not_(ctx.le_(tn * tn, norm2(ctx, errs[-1]))),
                        *[ctx.and_(ctx.lt_(x, tol), ctx.lt_(-tol, x)) for x in errs[-1]])
        if j == k:
            break
        if j:
            ctx.check(ctx.not_(good), 'the solver stops once the constraints are matched')
        e = eta if conv == 'none' else eta + j
        d, _ = expect_learning(ctx, md.learn[j:j + 1], md.mean(j + 1), list(c), fit, m, j + 1, e, maxd, 1, 0)
        lam = [lam[i] + (d[fit.index(i)] if i in fit else 0) for i in range(m)]
    for i in range(m):
        ctx.eq(md.runs[-1]['theta'][i], lam[i], 'the model sample at the end is drawn at the returned parameters')
    x = r[0] if full else r
    ctx.check(x.size == len(fit), 'size of the result')
    for j, i in enumerate(fit):
        ctx.eq(x[j], lam[i], 'the parameters last tested are returned')
    for i in range(m):
        ctx.eq(s.multipliers[i], lam[i], 'the parameters last tested are kept')
    if k < maxiter:
        ctx.check(good, 'the solver only stops early when the constraints are matched')
    if full:
        flag = r[1]
        ctx.check(flag in (0, 1), 'error flag')
        ctx.iff(flag == 0, good, 'error flag 0 exactly when the constraints are matched')
        ctx.check(tuple(r[2].shape) == (k + 1, len(fit)), 'one row of errors per sampling run')
        for j in range(k + 1):
            for i in range(len(fit)):
                ctx.eq(r[2][j, i], errs[j][i], 'error log')
    if given:
        ctx.eq(g, g0, 'initial guess unchanged')


@R.harness(encodes=[V + 'MCH.estimate_jac'], bound='3 observables, arbitrary predictions', cases=[dict()])
def jacobian(ctx):
    sv, s, md = make(ctx, False, 3, [0, 1, 2])
    md.generate_sample(1, 1)
    s._multipliers = ctx.reals('lam', 3)
    eps = ctx.real('eps', pos=True)
    jac = s.estimate_jac(eps=eps)
    ctx.check(len(md.learn) == 6, 'two predictions per parameter')
    for i in range(3):
        a, b = md.learn[2 * i], md.learn[2 * i + 1]
        for j in range(3):
            ctx.eq(a[1][j], eps if j == i else 0, 'forward step')
            ctx.eq(b[1][j], -eps if j == i else 0, 'backward step')
            ctx.eq(jac[i, j], (a[2][j] - b[2][j]) / (2 * eps), 'central difference')


@R.harness(encodes=[V + c + f for c in ('MCH.', 'SparseMCH.') for f in ('solve', 'learn_parameters_mch')], max_paths=5000,
           bound='3 observables, one round with the documented default settings, learning stopped in the first or second step',
           cases=[dict(sparse=s, fit=f, big=b) for s, f in ((False, [0, 1, 2]), (True, [1]), (True, [0, 2])) for b in (True, False)])
def documented_defaults(ctx, sparse, fit, big):
    """Without settings: eta 1, change of any parameter and norm of the change up to 1, 30 iterations and burn-in."""
    sv, s, md = make(ctx, sparse, 3, fit)
    c = ctx.reals('c', len(fit))
    if sparse:
        s.constraints = ctx.np.zeros(3)
        for j, i in enumerate(fit):
            s.constraints[i] = c[j]
    else:
        s.constraints = c
    for x in c:
        ctx.assume(ctx.and_(ctx.le_(-1, x), ctx.le_(x, 1)))
    if len(fit) == 3 and not big:
        c[1:] = ctx.np.array(md.mean(1)[1:])
        s.constraints = c

    def far(X, dl):
        o = ctx.np.zeros(3) + 100.
        md.learn.append((md.current(X), dl.copy(), o))
        return o.copy()
    s.mch_approximation = far
    e = [a - y for a, y in zip(md.mean(1), c)]
    n2 = norm2(ctx, e)
    out = ctx.or_(larger(ctx, e, 1), anyabs(ctx, e, 1))
    ctx.assume(out if big else ctx.not_(out))
    s.solve(maxiter=0)
    for run in md.runs:
        ctx.check((run['n_iters'], run['burn_in']) == (30, 30), 'default sampling arguments')
    ctx.check(len(md.learn) == (1 if big else 2), 'number of learning steps with the default limits')
    expect_learning(ctx, md.learn, md.mean(1), list(c), fit, 3, 1, 1, 1, 1, 50)
