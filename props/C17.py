"""C17: minimum probability flow minimises the flow objective of the data, with its exact gradient."""
from itertools import combinations, product
from vf.engine import Registry
from props.solver_common import Optimizer, guess_vector
from props.measure import Measure

R = Registry()
V = 'coniii.solvers.'
U = 'coniii.utils.'


def obs01(row):
    n = len(row)
    return list(row) + [row[i] * row[j] for i, j in combinations(range(n), 2)]


def energy(ctx, row, p):
    return -ctx.sum([a * b for a, b in zip(obs01(row), p)])


def one_flip(row):
    return [row[:i] + [1 - row[i]] + row[i + 1:] for i in range(len(row))]


def to01(ctx, p, n):
    """{-1,1} parameters to {0,1}: s = 2x - 1."""
    h, J = list(p[:n]), list(p[n:])
    pr = list(combinations(range(n), 2))
    return [2 * h[i] - 2 * ctx.sum([J[k] for k, q in enumerate(pr) if i in q]) for i in range(n)] + [4 * x for x in J]


def to11(ctx, p, n):
    h, J = list(p[:n]), list(p[n:])
    pr = list(combinations(range(n), 2))
    return [h[i] / 2 + ctx.sum([J[k] for k, q in enumerate(pr) if i in q]) / 4 for i in range(n)] + [x / 4 for x in J]


def same(ctx, a, b):
    return ctx.and_(*[ctx.eq_(x, y) for x, y in zip(a, b)])


CASES = [dict(n=2, S=1, log=True, grad=True, guess='int', full=False, conn=True, nb='default'),
         dict(n=2, S=1, log=True, grad=False, guess=True, full=False, conn=True, nb='default'),
         dict(n=2, S=2, log=True, grad=True, guess=False, full=True, conn=True, nb='default'),
         dict(n=2, S=2, log=False, grad=True, guess=True, full=False, conn=True, nb='default'),
         dict(n=2, S=3, log=False, grad=False, guess=False, full=True, conn=True, nb='default'),
         dict(n=3, S=2, log=True, grad=False, guess=True, full=True, conn=True, nb='default'),
         dict(n=3, S=1, log=True, grad=True, guess=False, full=False, conn=True, nb='default'),
         dict(n=2, S=2, log=True, grad=True, guess=True, full=False, conn=True, nb='custom'),
         dict(n=2, S=2, log=False, grad=True, guess=False, full=False, conn=False, nb='default'),
         dict(n=2, S=2, log=True, grad=True, guess=False, full=False, conn=False, nb='custom'),
         dict(n=3, S=2, log=True, grad=False, guess=False, full=False, conn=False, nb='default'),
         dict(n=2, S=3, log=True, grad=True, guess=False, full=False, conn=True, nb='uneven'),
         dict(n=2, S=2, log=False, grad=True, guess=False, full=False, conn=False, nb='uneven')]
CUBE = [r for r in product((-1, 1), repeat=3)]
CASES += [dict(n=3, S=len(d), log=lg, grad=True, guess=False, full=False, conn=c, nb=nb, data=d) for d, lg, c, nb in (
    (CUBE, True, False, 'default'), (CUBE, True, True, 'default'), (CUBE[1:], False, False, 'default'), (CUBE[:3] + CUBE[:1], True, False, 'default'),
    (CUBE[2:] + CUBE[4:7], True, True, 'uneven'), (CUBE[:1] * 3 + CUBE[7:], False, True, 'uneven'))]
WIDE = [tuple(-1 if (r * r * (i + 2) + i // 2 + (r * i) // 3) % 7 % 2 else 1 for i in range(5)) for r in range(8)]
CASES += [dict(n=5, S=8, log=True, grad=True, guess=True, full=False, conn=c, nb='default', data=WIDE) for c in (False, True)]


@R.harness(encodes=[V + 'MPF.solve', V + 'MPF.logK', V + 'MPF.K', V + 'MPF.list_adjacent_states', V + 'MPF.__init__',
                    U + 'adj', U + 'calc_de', U + 'ising_convert_params', U + 'split_concat_params'],
           bound='n = 2, 3 spins, every data set of 1..3 samples (six given ones of up to 10 samples of 3 spins, one of 8 samples of 5 spins), all real trial parameters, guesses and limits; one-flip and '
           'caller-chosen neighbours, also of numbers that depend on the state', cases=CASES, max_paths=20000, budget=300, tol=1e-5,
           thorough=[dict(n=3, S=2, log=lg, grad=True, guess=True, full=True, conn=c, nb=nb)
                     for lg in (True, False) for c in (True, False) for nb in ('default', 'custom')] +
           [dict(n=2, S=3, log=True, grad=True, guess=True, full=True, conn=True, nb='custom'),
            dict(n=3, S=3, log=True, grad=False, guess=True, full=True, conn=True, nb='default')])
def objective(ctx, n, S, log, grad, guess, full, conn, nb, data=None):
    sv, ut = ctx.lib('solvers'), ctx.lib('utils')
    ctx.exact_logs()
    m = n * (n + 1) // 2
    X = ctx.np.array([[ctx.choice('s%d%d' % (r, i), (-1, 1)) for i in range(n)] for r in range(S)] if data is None else [list(r) for r in data])
    X0 = X.copy()
    kw = {}
    if nb != 'default':
        def neigh(r):
            r = [int(v) for v in r]
            if nb == 'uneven':
                return one_flip(r)[:1 + r[0] + r[1]]
            return [[1 - r[0], 1 - r[1]] + r[2:], [r[0], 1 - r[1]] + r[2:]]

        def adj(s):
            nbs = neigh(list(s))
            out = ctx.np.zeros((len(nbs), n))
            for k, r in enumerate(nbs):
                for i in range(n):
                    out[k, i] = r[i]
            return out
        kw['adj'] = adj
    else:
        neigh = one_flip
    if grad:
        kw['calc_de'] = ut.calc_de
    s = sv.MPF(X, iprint=False, **kw)
    fake = Optimizer(ctx)
    ctx.optimizer(sv, 'minimize', fake)
    L = ctx.real('limit', pos=True)
    a = {}
    if guess:
        a['initial_guess'] = g = guess_vector(ctx, 'g', m, guess)
        g0 = g.copy()
    rows = [[(int(v) + 1) // 2 for v in X0[r]] for r in range(S)]
    # neighbours that count, per row
    terms = []
    for r in rows:
        k0 = len(terms)
        for t in neigh(r):
            if not conn and t in rows:
                continue
            terms.append((r, t))
        if len(terms) == k0:
            ctx.raises(lambda: s.solve(all_connected=conn, uselog=log), Exception, 'no neighbour outside the data')
            return
    r = s.solve(all_connected=conn, uselog=log, parameter_limits=L, full_output=full,
                solver_kwargs={'maxiter': 17}, **a)
    x = r[0] if full else r
    ctx.check(len(fake.calls) == 1, 'minimised once')
    _, x0, k = fake.calls[0]
    ctx.check(bool(k.get('jac')) == grad, 'gradient used if it is available')
    ctx.check(k.get('options') == {'maxiter': 17}, 'options passed on')
    ctx.check(len(k['bounds']) == m, 'one bound per parameter')
    for lo, hi in k['bounds']:
        ctx.eq(lo, -L, 'lower bound')
        ctx.eq(hi, L, 'upper bound')
    ctx.check(x0.size == m, 'size of the initial guess')
    if guess:
        for i, v in enumerate(to01(ctx, g0, n)):
            ctx.eq(x0[i], v, 'guess %d in the {0,1} basis' % i)
        ctx.eq(g, g0, 'guess unchanged')
    got = to11(ctx, fake.results[0]['x'], n)
    ctx.check(x.size == m and s.multipliers.size == m, 'size of the result')
    for i in range(m):
        ctx.eq(x[i], got[i], 'result %d in the {-1,1} basis' % i)
        ctx.eq(s.multipliers[i], got[i], 'kept result %d' % i)
    t = ctx.reals('t', m)
    v, gr = fake.evaluate(0, t)
    w = ctx.sum([ctx.exp((energy(ctx, p, t) - energy(ctx, q, t)) / 2) for p, q in terms])
    if log:
        ctx.eq(ctx.exp(v) * S, w, 'log of the mean flow')
    else:
        ctx.eq(v * S, w, 'mean flow')
    if grad:
        ctx.check(gr.size == m, 'size of the gradient')
        for i in range(m):
            dw = ctx.sum([ctx.exp((energy(ctx, p, t) - energy(ctx, q, t)) / 2) * (obs01(q)[i] - obs01(p)[i]) / 2
                          for p, q in terms])
            if log:
                ctx.eq(gr[i] * w, dw, 'gradient %d' % i)
            else:
                ctx.eq(gr[i] * S, dw, 'gradient %d' % i)
    ctx.eq(X, X0, 'sample unchanged')


@R.harness(encodes=[U + 'adj', U + 'adj_sym'], bound='n = 1..4 spins (thorough 6), every state, up to 2 random neighbours '
           'with up to 2 redraws', cases=[dict(sym=s, n=n, rand=r) for s in (True, False) for n, r in
                                          ((1, 0), (2, 0), (3, 0), (4, 0), (2, 1), (2, 2), (3, 1))],
           thorough=[dict(sym=s, n=n, rand=r) for s in (True, False) for n, r in ((6, 0), (4, 1), (3, 2))], max_paths=5000)
def neighbours(ctx, sym, n, rand):
    ut = ctx.lib('utils')
    dom = (-1, 1) if sym else (0, 1)
    f = ut.adj_sym if sym else ut.adj
    x = ctx.ints('s', n, dom)
    x0 = x.copy()
    if rand:
        f = getattr(f, 'py_func', f)
        ctx.script_random(ut)
        ctx.limit_draws(n * (rand + 1))
        a = f(x, rand)
    else:
        a = f(x)
    ctx.check(tuple(a.shape) == (n + rand, n), 'number of neighbours')
    for i in range(n):
        for j in range(n):
            flipped = -x0[j] if sym else 1 - x0[j]
            ctx.eq(a[i, j], flipped if i == j else x0[j], 'neighbour %d differs in spin %d only' % (i, i))
    for i in range(n, n + rand):
        for j in range(n):
            ctx.check(ctx.or_(*[ctx.eq_(a[i, j], d) for d in dom]), 'random neighbour is a state')
        ctx.check(ctx.not_(same(ctx, a[i], x0)), 'random neighbour differs from the state')
    ctx.eq(x, x0, 'state unchanged')


@R.harness(encodes=[U + 'calc_de'], bound='n = 2..5, 12 spins, 2 states, every parameter',
           cases=[dict(n=n, sym=s) for n in (2, 3, 4, 5, 12) for s in (0, 1)])
def energy_derivative(ctx, n, sym):
    ut = ctx.lib('utils')
    X = ctx.ints('s', (2, n), (-1, 1) if sym else (0, 1))
    for k in range(n * (n + 1) // 2):
        d = ut.calc_de(X, k)
        for r in range(2):
            ctx.eq(d[r], -obs01(list(X[r]))[k], 'dE/dp%d' % k)


@R.harness(encodes=[U + 'split_concat_params'], bound='n = 2..6, 8 spins, interactions up to any order',
           cases=[dict(n=n) for n in (2, 3, 4, 5, 6, 8)])
def splitting(ctx, n):
    from math import comb
    ut = ctx.lib('utils')
    for order in range(1, n + 1):
        sizes = [comb(n, o) for o in range(1, order + 1)]
        p = ctx.reals('p', sum(sizes))
        out = ut.split_concat_params(p, n)
        ctx.check([len(o) for o in out] == sizes, 'sizes per order')
        k = 0
        for o in out:
            for v in o:
                ctx.eq(v, p[k], 'order kept')
                k += 1


class Redraw(Exception):
    pass


@R.harness(encodes=[U + 'adj', U + 'adj_sym'], bound='n = 1..3 spins, every state; one random neighbour accepted at the first try',
           cases=[dict(sym=s, n=n) for s in (True, False) for n in (1, 2, 3)])
def random_neighbours(ctx, sym, n):
    """Every other state is as likely as any other to be the random neighbour."""
    ut = ctx.lib('utils')
    dom = (-1, 1) if sym else (0, 1)
    f = ut.adj_sym if sym else ut.adj
    f = getattr(f, 'py_func', f)
    x0 = [ctx.choice('s%d' % i, dom) for i in range(n)]
    m = Once(ctx)
    m.n = n
    ctx.random = m
    ctx.script_random(ut)

    def run():
        try:
            a = f(ctx.np.array(x0), 1)
        except Redraw:
            return None
        return tuple(int(ctx.concrete(v)) for v in a[n])
    P = {t: 0 for t in product(dom, repeat=n)}
    for t, prob in m.paths(run):
        if t is not None:
            P[t] = P[t] + prob()
    w = ctx.sum(list(P.values()))
    for t, p in P.items():
        if t == tuple(x0):
            ctx.eq(p, 0, 'the state is not its own neighbour')
        else:
            ctx.check(ctx.lt_(0, p), 'every other state can be the random neighbour')
            ctx.eq(p * (2**n - 1), w, 'random neighbours are equally likely')


class Once(Measure):
    """No second try: at most n uniform draws."""
    n = 0

    def random_sample(self, size=None):
        if len(self.us) >= self.n:
            raise Redraw
        return super().random_sample(size)

    rand = lambda self, *size: self.random_sample(size or None)
    random = random_sample
