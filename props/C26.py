"""C26: cluster and lattice Monte Carlo sample the Boltzmann distribution of their model."""
from itertools import combinations, product
from math import ceil
from vf.engine import Registry
from props.measure import Measure

R = Registry()
W = 'coniii.samplers.WolffIsing.'
A = 'coniii.ising.automaton.Ising2D.'


def product_(ctx, xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def wolff(ctx, n, form='vector'):
    sm = ctx.lib('samplers')
    it = sm.iterate_neighbors
    ctx.patch(sm, 'iterate_neighbors', getattr(it, 'py_func', it))
    h = ctx.reals('h', n)
    J = ctx.reals('J', n * (n - 1) // 2)
    Jm = ctx.np.zeros((n, n))
    for q, (i, j) in enumerate(combinations(range(n), 2)):
        Jm[i, j] = J[q]
        Jm[j, i] = J[q]
    w = sm.WolffIsing(J if form == 'vector' else Jm, h)
    return w, J, h


def energy(ctx, J, h, s):
    return -ctx.sum([h[i] * s[i] for i in range(len(s))]) - ctx.sum(
        [J[q] * (s[i] * s[j]) for q, (i, j) in enumerate(combinations(range(len(s)), 2))])


def transition(ctx, m, step, s, t):
    """Probability that step takes s to t."""
    p = 0

    def run():
        x = ctx.np.array([float(v) for v in s])
        step(x)
        return tuple(int(ctx.concrete(v)) for v in x)
    for r, prob in m.paths(run):
        if r == t:
            p = p + prob()
    return p


@R.harness(encodes=[W + f for f in ('__init__', 'update_parameters', 'one_step', 'build_cluster', 'find_neighbors')] +
           ['coniii.samplers.iterate_neighbors'], max_paths=20000,
           bound='2 and 3 spins, all real couplings and fields, every pair of states, started from a given or random site',
           cases=[dict(n=2, k=k, site=x, form=f) for k in (1, 2) for x, f in ((None, 'vector'), (0, 'matrix'), (1, 'vector'))] +
           [dict(n=3, k=k, site=x, form='vector') for k in (1, 2, 3) for x in (0, 2)],
           thorough=[dict(n=3, k=k, site=x, form='matrix') for k in (1, 2, 3) for x in (1, None)])
def detailed_balance(ctx, n, k, site, form):
    w, J, h = wolff(ctx, n, form)
    m = Measure(ctx)
    w.rng = m
    s = tuple(ctx.choice('s%d' % i, (-1, 1)) for i in range(n))
    flip = [c for c in combinations(range(n), k)]
    flip = flip[ctx.choice('flip', range(len(flip)))] if len(flip) > 1 else flip[0]
    t = tuple(-x if i in flip else x for i, x in enumerate(s))
    step = (lambda x: w.one_step(x)) if site is None else (lambda x: w.one_step(x, initialsite=site))
    p, q = transition(ctx, m, step, s, t), transition(ctx, m, step, t, s)
    ctx.eq(p * ctx.exp(-energy(ctx, J, h, s)), q * ctx.exp(-energy(ctx, J, h, t)), 'detailed balance')
    if k == 1 and site in (None, flip[0]):
        ctx.check(ctx.lt_(0, p), 'single spins can be flipped')
    if site is not None and site not in flip:
        ctx.eq(p, 0, 'cluster contains the initial site')


@R.harness(encodes=['coniii.samplers.iterate_neighbors'], bound='up to 4 spins, all visited sets, bond factors and draws', max_paths=20000,
           cases=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=5), dict(n=6)])
def bonds(ctx, n):
    sm = ctx.lib('samplers')
    ix = ctx.np.array([bool(ctx.choice('marked%d' % i, (0, 1))) for i in range(n)])
    e, r = ctx.reals('expdJ', n), ctx.reals('r', n, lo=0, hi=1)
    out = sm.iterate_neighbors(n, ix, e, r)
    out = [int(ctx.concrete(x)) for x in out]
    ctx.check(out == sorted(set(out)), 'each site once')
    for i in range(n):
        if ix[i]:
            ctx.check(i not in out, 'visited sites are not added')
        elif i in out:
            ctx.check(ctx.le_(r[i], 1 - e[i]), 'bond of site %d' % i)
        else:
            ctx.check(ctx.le_(1 - e[i], r[i]), 'no bond of site %d' % i)


@R.harness(encodes=[W + 'generate_sample'], bound='2 spins, up to 2 samples and 2 (thorough 3) steps', max_paths=20000,
           cases=[dict(size=2, iters=1, init=False, hist=False), dict(size=1, iters=2, init=True, hist=False),
                  dict(size=1, iters=2, init=True, hist=True), dict(size=2, iters=1, init=False, hist=True), dict(size=1, iters=0, init=True, hist=True)],
           thorough=[dict(size=2, iters=2, init=True, hist=False), dict(size=1, iters=3, init=True, hist=True)])
def chains(ctx, size, iters, init, hist):
    """Every sample is the result of the given number of steps, with the draws of these steps."""
    w, J, h = wolff(ctx, 2)
    w.rng = ctx.rng()
    s0 = ctx.np.array([[float(ctx.choice('s%d%d' % (i, j), (-1, 1))) for j in range(2)] for i in range(size)]) if init else None
    n0 = len(ctx.draws)
    given = None if s0 is None else s0.copy()
    out = w.generate_sample(size, iters, initialSample=given, save_history=hist)
    if init:
        ctx.eq(given, s0, 'the initial states given are unchanged')
    out, history = out if hist else (out, None)
    ctx.rewind(n0)
    start = ctx.np.array(w.rng.choice([-1., 1.], size=(size, 2))) if s0 is None else s0
    ctx.check(tuple(out.shape) == (size, 2), 'shape of the sample')
    for i in range(size):
        s = start[i].copy()
        if hist:
            ctx.eq(history[i, :, 0], s, 'history starts with the initial state')
        for j in range(iters):
            w.one_step(s, initialsite=j % 2) if hist else w.one_step(s)
            if hist:
                ctx.eq(history[i, :, j + 1], s, 'history')
        ctx.eq(out[i], s, 'sample')
    if hist:
        ctx.check(tuple(history.shape) == (size, 2, iters + 1), 'shape of the history')


@R.harness(encodes=['coniii.samplers.iter_cluster'], bound='graphs of up to 4 sites, every adjacency matrix', max_paths=20000,
           cases=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=5)])
def components(ctx, n):
    sm = ctx.lib('samplers')
    adj = ctx.np.zeros((n, n))
    edge = {}
    for i, j in combinations(range(n), 2):
        edge[i, j] = edge[j, i] = adj[i, j] = adj[j, i] = ctx.choice('adj%d%d' % (i, j), (0, 1))
    cl = [[int(x) for x in c] for c in sm.iter_cluster(adj)]
    ctx.check(sorted(sum(cl, [])) == list(range(n)), 'every site in one cluster')
    of = {i: k for k, c in enumerate(cl) for i in c}
    for (i, j), x in edge.items():
        ctx.check(not x or of[i] == of[j], 'neighbours share a cluster')
    for c in cl:
        seen, todo = {c[0]}, [c[0]]
        while todo:
            i = todo.pop()
            new = [j for j in c if j not in seen and edge.get((i, j))]
            seen.update(new)
            todo += new
        ctx.check(seen == set(c), 'clusters are connected')


# -- lattice --------------------------------------------------------------------------------------
def lattice(ctx, dim, J, h, m=None):
    au = ctx.lib('ising.automaton')
    ident = lambda *a, **k: a[0] if a and callable(a[0]) else (lambda f: f)
    ctx.patch(au, 'njit', ident)
    ctx.script_random(au)
    I = au.Ising2D(dim, J, h=h)
    f = I.flip_metropolis
    I.flip_metropolis = getattr(f, 'py_func', f)
    ctx.random = m
    return I


def energy2d(ctx, L, dim, J, h):
    """Every site has a bond to its right and its lower neighbour on the torus."""
    a, b = dim
    return -J * ctx.sum([L[i][j] * (L[(i + 1) % a][j] + L[i][(j + 1) % b]) for i in range(a) for j in range(b)]) \
        - ctx.sum([h[i][j] * L[i][j] for i in range(a) for j in range(b)])


def flipped(L, i, j):
    return [[-x if (a, b) == (i, j) else x for b, x in enumerate(r)] for a, r in enumerate(L)]


def metropolis(ctx, dE):
    return 1 if ctx.branch(ctx.le_(dE, 0)) else ctx.exp(-dE)


@R.harness(encodes=[A + 'flip_metropolis'], max_paths=20000,
           bound='lattices up to 3 x 4 (thorough 6 x 7), every site, all configurations, couplings and fields',
           cases=[dict(dim=(3, 3), at=(0, 0)), dict(dim=(3, 3), at=(2, 1)), dict(dim=(3, 4), at=(1, 3)), dict(dim=(4, 3), at=(3, 2)),
                  dict(dim=(2, 3), at=(1, 0))],
           thorough=[dict(dim=(3, 4), at=(a, b)) for a in range(3) for b in range(4)] + [dict(dim=(5, 3), at=(4, 1)), dict(dim=(6, 7), at=(5, 0)), dict(dim=(8, 3), at=(0, 2))])
def flip(ctx, dim, at):
    J, h = ctx.real('J'), ctx.real('h')
    H = [[h if (i, j) == at else 0 for j in range(dim[1])] for i in range(dim[0])]
    m = Measure(ctx)
    I = lattice(ctx, dim, J, 0., m)
    s = ctx.ints('s', dim, (-1, 1))
    i, j = at
    for k in {(i, j), ((i + 1) % dim[0], j), ((i - 1) % dim[0], j), (i, (j + 1) % dim[1]), (i, (j - 1) % dim[1])}:
        s[k] = ctx.choice('at%d%d' % k, (-1, 1))
    old = [[s[i, j] for j in range(dim[1])] for i in range(dim[0])]
    p = 0

    def run():
        x = s.copy()
        y = I.flip_metropolis(at[0], at[1], h, J, x)
        return x, y
    for (x, y), prob in m.paths(run):
        for i in range(dim[0]):
            for j in range(dim[1]):
                if (i, j) != at:
                    ctx.eq(x[i, j], old[i][j], 'other sites unchanged')
        ctx.eq(y, x, 'lattice returned')
        if ctx.branch(ctx.eq_(x[at], -old[at[0]][at[1]])):
            p = p + prob()
        else:
            ctx.eq(x[at], old[at[0]][at[1]], 'flipped or not')
    dE = energy2d(ctx, flipped(old, *at), dim, J, H) - energy2d(ctx, old, dim, J, H)
    ctx.eq(p, metropolis(ctx, dE), 'Metropolis probability')


def start(ctx, a, b):
    """Fields and couplings have any sign, so with more than 2 sites the quick check fixes the start."""
    if a * b > 2 and ctx.tier == 'quick':
        return [[-1 if (i + j) % 2 else 1 for j in range(b)] for i in range(a)]
    return [[ctx.choice('s%d%d' % (i, j), (-1, 1)) for j in range(b)] for i in range(a)]


def sweep_probability(ctx, I, m, n_iters, s, t, dim, **kw):
    def run():
        I.lattice = ctx.np.array([list(r) for r in s])
        I.iterate(n_iters, **kw)
        return [[int(ctx.concrete(v)) for v in r] for r in I.lattice]
    p = 0
    for r, prob in m.paths(run):
        if r == t:
            p = p + prob()
    return p


@R.harness(encodes=[A + 'iterate', A + 'flip_metropolis', A + '__init__'], max_paths=20000,
           bound='lattices up to 2 x 2 and 1 x 3, up to 2 sweeps (of free spins), all couplings without fields or fields without couplings, '
           'every pair of configurations, 2 orders of the sites',
           cases=[dict(dim=(1, 3), order=(2, 0, 1), n=1, free=True), dict(dim=(3, 1), order=(0, 2, 1), n=3, free=True),
                  dict(dim=(1, 2), order=(1, 0), n=3, free=True), dict(dim=(2, 2), order=(3, 1, 0, 2), n=2, free=False),
                  dict(dim=(2, 2), order=(0, 1, 2, 3), n=4, free=False)],
           thorough=[dict(dim=(2, 2), order=(2, 0, 3, 1), n=4, free=True), dict(dim=(2, 2), order=(3, 0, 2, 1), n=3, free=False),
                     dict(dim=(3, 2), order=(3, 0, 5, 2, 1, 4), n=6, free=False)])
def systematic(ctx, dim, order, n, free):
    """A sweep visits every site once, each with its own field; sweeps are repeated until n sites were visited."""
    a, b = dim
    N = a * b
    J = 0. if free else ctx.real('J')
    h = ctx.reals('h', dim) if free else 0.
    H = [[h[i, j] if free else 0 for j in range(b)] for i in range(a)]
    m = Measure(ctx, order)
    I = lattice(ctx, dim, J, h, m)
    s = start(ctx, a, b)
    t = [[ctx.choice('t%d%d' % (i, j), (-1, 1)) for j in range(b)] for i in range(a)]
    p = sweep_probability(ctx, I, m, n, s, t, dim)
    sweeps = ceil(n / N)
    if free:
        # independent spins: the product over sites of a two state chain
        q = 1
        for i in range(a):
            for j in range(b):
                up, down = metropolis(ctx, 2 * s[i][j] * H[i][j]), metropolis(ctx, -2 * s[i][j] * H[i][j])
                stay = 1
                for _ in range(sweeps):
                    stay = stay * (1 - up) + (1 - stay) * down
                q = q * (stay if s[i][j] == t[i][j] else 1 - stay)
        ctx.eq(p, q, 'probability')
        return
    assert sweeps == 1
    q, x = 1, s
    for k in order:
        i, j = k // b, k % b
        y = flipped(x, i, j)
        f = metropolis(ctx, energy2d(ctx, y, dim, J, H) - energy2d(ctx, x, dim, J, H))
        q = q * (f if t[i][j] != s[i][j] else 1 - f)
        x = y if t[i][j] != s[i][j] else x
    ctx.eq(p, q, 'probability')


@R.harness(encodes=[A + 'iterate', A + 'flip_metropolis'], max_paths=20000,
           bound='lattices of 2 and 3 sites, up to 3 iterations, all fields', budget=300,
           cases=[dict(dim=(1, 2), n=1), dict(dim=(2, 1), n=2), dict(dim=(1, 2), n=3), dict(dim=(3, 1), n=2)],
           thorough=[dict(dim=(2, 2), n=1), dict(dim=(1, 3), n=3)])
def random_sites(ctx, dim, n):
    """n sites are picked uniformly and independently."""
    a, b = dim
    h = ctx.reals('h', dim)
    m = Measure(ctx)
    I = lattice(ctx, dim, 0., h, m)
    s = start(ctx, a, b)
    t = [[ctx.choice('t%d%d' % (i, j), (-1, 1)) for j in range(b)] for i in range(a)]
    p = sweep_probability(ctx, I, m, n, s, t, dim, systematic=False)
    f = {(i, j, v): metropolis(ctx, 2 * v * h[i, j]) for i in range(a) for j in range(b) for v in (-1, 1)}
    now = {tuple(map(tuple, s)): 1}
    for _ in range(n):
        nxt = {}
        for L, q in now.items():
            for i in range(a):
                for j in range(b):
                    g = ctx.frac(1, a * b) * f[i, j, L[i][j]]
                    y = tuple(map(tuple, flipped(L, i, j)))
                    nxt[y] = nxt.get(y, 0) + q * g
                    nxt[L] = nxt.get(L, 0) + q * (ctx.frac(1, a * b) - g)
        now = nxt
    ctx.eq(p, now.get(tuple(map(tuple, t)), 0), 'probability')


@R.harness(encodes=[A + '__init__'], bound='2 x 3 lattice; no field, one field, a field per site; all draws',
           cases=[dict(form=f) for f in ('none', 'int', 'float', 'array')])
def construct(ctx, form):
    au = ctx.lib('ising.automaton')
    h = {'none': 0, 'int': 2, 'float': ctx.real('h'), 'array': ctx.reals('H', (2, 3))}[form]
    r = ctx.rng()
    I = au.Ising2D((2, 3), ctx.real('J'), h=h, rng=r) if form != 'none' else au.Ising2D((2, 3), ctx.real('J'), rng=r)
    u = ctx.drawn('u')
    ctx.check(I.rng is r, 'generator')
    for k in range(6):
        i, j = k // 3, k % 3
        ctx.eq(I.h[i, j], h[i, j] if form == 'array' else h, 'field of a site')
        ctx.check(ctx.or_(ctx.eq_(I.lattice[i, j], 1), ctx.eq_(I.lattice[i, j], -1)), 'spins')
    ctx.check(len(u) == 6, 'lattice drawn from the given generator')
