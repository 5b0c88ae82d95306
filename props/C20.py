"""C20: the exact solvers solve the constraint equations, for every parameter subset."""
from itertools import combinations
from vf.engine import Registry
from props.C01 import boltzmann, join_branches, observables, terms_upto
from props.solver_common import Optimizer, AnyModel, guess_vector

R = Registry()
V = 'coniii.solvers.'


def pair_obs(ctx, row):
    n = len(row)
    return list(row) + [row[i] * row[j] for i, j in combinations(range(n), 2)]


def subsets(m, sizes=None):
    return [list(c) for r in range(1, m + 1) for c in combinations(range(m), r) if sizes is None or r in sizes]


def make(ctx, sparse, n, ix, model, sample=None, obs=None):
    sv = ctx.lib('solvers')
    kw = dict(model=model, iprint=False, calc_observables=obs)
    if sparse:
        return sv, sv.SparseEnumerate(n if sample is None else sample, parameter_ix=ctx.np.array(ix), **kw)
    return sv, sv.Enumerate(n if sample is None else sample, **kw)


@R.harness(encodes=[V + 'Enumerate.solve', V + 'SparseEnumerate.solve', V + 'Solver.fill_in', V + 'Solver.set_insertion_ix',
                    V + 'SparseEnumerate.__init__', V + 'Enumerate.__init__'],
           bound='3 parameters (thorough 6), every nonempty subset of fitted parameters, an arbitrary model (fresh '
           'observables per parameter vector), all real constraints, trial and limit values; both scipy routes',
           cases=[dict(ix=ix, root=r, lim=l, given=g, full=f) for ix in [None] + subsets(3)
                  for r, l, g, f in ((True, True, True, False), (True, False, False, True), (False, True, False, False),
                                     (False, False, True, True))] + [dict(ix=ix, root=r, lim=True, given='int', full=False) for ix in (None, (0, 2)) for r in (True, False)],
           thorough=[dict(ix=ix, root=r, lim=True, given=True, full=False) for ix in subsets(6, (1, 2, 4, 5))[::3]
                     for r in (True, False)])
def equations(ctx, ix, root, lim, given, full):
    m = 3 if ix is None or max(ix) < 3 else 6
    sparse = ix is not None
    fit = list(range(m)) if ix is None else ix
    model = AnyModel(ctx, m)
    model.multipliers = ctx.np.zeros(m)
    sv, s = make(ctx, sparse, 2, ix, model, obs=lambda X: X)
    fake = Optimizer(ctx)
    other = Optimizer(ctx)
    ctx.optimizer(sv, 'root', fake if root else other)
    ctx.optimizer(sv, 'minimize', other if root else fake)
    c = ctx.reals('c', len(fit))
    kw = {}
    if given:
        kw['constraints'] = c
        s.constraints = ctx.reals('unused', m)
        kw['initial_guess'] = g = guess_vector(ctx, 'guess', len(fit), given)
    else:
        if sparse:
            s.constraints = ctx.reals('call', m)
            c = s.constraints[ctx.np.array(fit)]
        else:
            s.constraints = c
        g = ctx.np.zeros(len(fit))
    L = ctx.real('limit', lo=1) if lim else None
    opts = {'method': 'hybr', 'tol': 1e-9}
    r = s.solve(max_param_value=L, use_root=root, full_output=full, scipy_solver_kwargs=opts, **kw)
    x = r[0] if full else r
    ctx.check(len(fake.calls) == 1 and not other.calls, 'the chosen scipy routine is called once')
    f, x0, k = fake.calls[0]
    ctx.eq(x0, g, 'initial guess')
    ctx.check(k.get('method') == 'hybr' and k.get('tol') == 1e-9, 'solver options passed on')
    ctx.eq(x, fake.results[0]['x'], 'the solution found is returned')
    ctx.eq(s.multipliers, fake.results[0]['x'], 'the solution found is kept')
    if full:
        ctx.check(r[1] is fake.results[0], 'scipy output returned')
    # the equations: a trial point is accepted iff its averages are the constraints
    t = ctx.reals('trial', len(fit))
    k0 = len(model.calls)
    v = f(t.copy())
    flat = list(v) if root else [v]
    zero = ctx.and_(*[ctx.eq_(y, 0) for y in flat])
    if root:
        ctx.check(tuple(v.shape) == (len(fit),), 'one equation per fitted parameter')
    else:
        ctx.le(0, v, 'the cost is not negative')
    if len(model.calls) == k0:
        ctx.check(lim, 'the model is evaluated')
        ctx.check(ctx.or_(*[ctx.or_(ctx.lt_(L, y), ctx.lt_(y, -L)) for y in t]), 'only rejected outside the limits')
        ctx.check(ctx.not_(zero), 'no solution outside the limits')
        return
    if lim:
        for y in t:
            ctx.check(ctx.and_(ctx.le_(y, L), ctx.le_(-L, y)), 'within the limits')
    ctx.check(len(model.calls) == k0 + 1, 'model evaluated once')
    p, o = model.calls[-1]
    ctx.check(p.size == m, 'all parameters given to the model')
    for i in range(m):
        ctx.eq(p[i], t[fit.index(i)] if i in fit else 0, 'parameter %d of the model' % i)
    hit = ctx.and_(*[ctx.eq_(o[i], c[j]) for j, i in enumerate(fit)])
    ctx.iff(zero, hit, 'solved exactly where the averages equal the constraints')


@R.harness(encodes=[V + 'Solver.fill_in', V + 'Solver.set_insertion_ix', V + 'SparseEnumerate.__init__'],
           bound='every nonempty subset of 6 parameters (thorough: 10), in any order, with repetitions',
           cases=[dict(m=6)], thorough=[dict(m=10)])
def filling(ctx, m):
    n = {6: 3, 10: 4}[m]
    v = ctx.real('fill')
    for ix in subsets(m):
        model = AnyModel(ctx, m)
        model.multipliers = ctx.np.zeros(m)
        order = ix[::-1] + ix[:1]
        _, s = make(ctx, True, n, order, model, obs=lambda X: X)
        ctx.eq(s.parameterIx, ctx.np.array(ix), 'fitted parameters are sorted and unique')
        x = ctx.reals('x', len(ix))
        y = s.fill_in(x)
        z = s.fill_in(x, fill_value=v)
        ctx.check(y.size == m and z.size == m, 'full size')
        for i in range(m):
            ctx.eq(y[i], x[ix.index(i)] if i in ix else 0, 'entry %d for %s' % (i, ix))
            ctx.eq(z[i], x[ix.index(i)] if i in ix else v, 'entry %d for %s, given fill value' % (i, ix))


@R.harness(encodes=[V + 'Solver.basic_setup', V + 'Enumerate.__init__', 'coniii.models.Ising.__init__'],
           bound='1..3, 12 samples of 2..4, 9 spins over {-1,1}, default and given observables and models',
           cases=[dict(n=n, S=S, how=h) for n, S in ((2, 1), (2, 3), (3, 2), (4, 2), (9, 1), (2, 12))
                  for h in ('default', 'given')], max_paths=5000)
def setup(ctx, n, S, how):
    sv = ctx.lib('solvers')
    X = ctx.ints('s', (S, n), (-1, 1))
    X0 = X.copy()
    m = n * (n + 1) // 2
    if how == 'default':
        s = sv.Enumerate(X, iprint=False)
        want = [ctx.sum([pair_obs(ctx, list(X[r]))[k] for r in range(S)]) / S for k in range(m)]
        ctx.check(s.model.n == n and s.model.multipliers.size == m, 'default model of the right size')
        ctx.eq(s.model.multipliers, ctx.np.zeros(m), 'default model starts at zero')
    else:
        model = AnyModel(ctx, 2)
        s = sv.Enumerate(X, model=model, calc_observables=lambda Y: Y[:, :2] * 3, iprint=False)
        ctx.check(s.model is model, 'given model kept')
        want = [3 * ctx.sum([X[r, k] for r in range(S)]) / S for k in range(2)]
    ctx.check(s.n == n, 'system size')
    ctx.check(s.constraints.size == len(want), 'number of constraints')
    for k, w in enumerate(want):
        ctx.eq(s.constraints[k], w, 'constraint %d is the average over the sample' % k)
    ctx.eq(s.sample, X0, 'sample kept')
    ctx.eq(X, X0, 'sample unchanged')


@R.harness(encodes=[V + 'Solver.basic_setup'], bound='system sizes 2..5, 8', cases=[dict(n=n) for n in (2, 3, 4, 5, 8)])
def setup_size(ctx, n):
    sv = ctx.lib('solvers')
    s = sv.Enumerate(n, iprint=False)
    ctx.check(s.n == n and s.sample is None and s.constraints is None, 'nothing but the size is set')
    ctx.eq(s.model.multipliers, ctx.np.zeros(n * (n + 1) // 2), 'default model')
    X = ctx.ints('s', (1, n), (-1, 1))
    ctx.eq(s.calc_observables(X)[0], ctx.array(pair_obs(ctx, list(X[0]))), 'default observables')


@R.harness(encodes=[V + 'Enumerate.solve', 'coniii.models.Ising.set_multipliers'],
           bound='n = 2, 3 spins, the real Ising model, all real parameters', tol=1e-5,
           cases=[dict(n=2, ix=None), dict(n=3, ix=None), dict(n=3, ix=[0, 4]), dict(n=2, ix=[2])])
def ising_equations(ctx, n, ix):
    join_branches(ctx)
    m = n * (n + 1) // 2
    fit = list(range(m)) if ix is None else ix
    sv, s = make(ctx, ix is not None, n, ix, None)
    fake = Optimizer(ctx)
    ctx.optimizer(sv, 'root', fake)
    c = ctx.reals('c', len(fit))
    s.solve(constraints=c, max_param_value=None)
    t = ctx.reals('t', len(fit))
    v = fake.calls[0][0](t)
    full = [t[fit.index(i)] if i in fit else 0 for i in range(m)]
    av = boltzmann(ctx, full, observables(n, True, terms_upto(n, 2)))[1]
    for j, i in enumerate(fit):
        ctx.eq(v[j] + c[j], av[i], 'equation %d' % j)


@R.harness(encodes=[V + 'Solver.logp'], bound='2 states (fully or partly observed, entries over {-1,0,1}) of 2 spins against '
           '2 model samples; 1-d states; given states and the data of the solver', cases=[
               dict(r=1, S=3, one=True, own=False), dict(r=2, S=2, one=False, own=False), dict(r=1, S=2, one=False, own=True)],
           max_paths=20000, budget=300)
def logp(ctx, r, S, one, own):
    sv = ctx.lib('solvers')
    model = AnyModel(ctx, 2)
    X = ctx.ints('x', (r, 2), (-1, 0, 1))
    data = X if own else ctx.np.ones((1, 2), dtype=int)
    s = sv.Enumerate(2 if one else data, model=model, calc_observables=lambda X: X, iprint=False)
    model.sample = ctx.ints('m', (S, 2), (-1, 1))
    p = []
    for i in range(r):
        cnt = ctx.sum([ctx.ite(ctx.and_(*[ctx.or_(ctx.eq_(X[i, j], 0), ctx.eq_(X[i, j], model.sample[k, j]))
                                          for j in range(2)]), 1, 0) for k in range(S)])
        ctx.assume(ctx.lt_(0, cnt))
        p.append(cnt)
    out = s.logp() if own else s.logp(X[0] if one else X)
    ctx.check(out.size == r, 'one value per state')
    for i in range(r):
        ctx.eq(ctx.exp(out[i]) * S, p[i], 'log of the observed frequency')
