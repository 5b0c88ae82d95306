"""C25: coarse graining combines the most similar columns, and blocks of a lattice by majority."""
from itertools import combinations, product
from vf.engine import Registry
from props.measure import Measure

R = Registry()


class Similar:
    """An arbitrary similarity function; keeps what it was asked."""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def __call__(self, X):
        n = X.shape[1]
        v = self.ctx.reals('sim%d' % len(self.calls), n * (n - 1) // 2)
        self.calls.append(([[float(self.ctx.concrete(y)) for y in r] for r in X], v))
        return v.copy()


class Coarse:
    """Returns a new column for every set of columns combined; keeps the columns."""

    def __init__(self, ctx, rows):
        self.ctx, self.rows, self.calls = ctx, rows, []

    def __call__(self, X):
        c = [[float(self.ctx.concrete(y)) for y in r] for r in X]
        k = len(self.calls)
        new = [100. + 10 * k + r for r in range(self.rows)]
        self.calls.append((c, new))
        return self.ctx.np.array(new)


@R.harness(encodes=['coniii.utils.coarse_grain_with_func'],
           bound='2..5 columns (thorough 6, 7) of 2 samples, 1 or 2 rounds, all real similarities (of any sign) between the columns', max_paths=20000,
           cases=[dict(n=3, times=1), dict(n=4, times=1), dict(n=5, times=1), dict(n=5, times=2), dict(n=2, times=0)],
           thorough=[dict(n=6, times=1), dict(n=6, times=2), dict(n=7, times=1)])
def columns(ctx, n, times):
    ut = ctx.lib('utils')
    # the values are passed on untouched, so distinct labels stand for all of them
    X = ctx.np.array([[1. + i + 20 * r for i in range(n)] for r in range(2)])
    keep = X.copy()
    sim, cf = Similar(ctx), Coarse(ctx, 2)
    Y, bins = ut.coarse_grain_with_func(X, times, sim, cf)
    ctx.eq(X, keep, 'input unchanged')
    ctx.check(len(sim.calls) == times, 'similarities measured once per round')
    now = [[[float(ctx.concrete(keep[r, i])) for r in range(2)], [i]] for i in range(n)]
    calls = list(cf.calls)
    for t in range(times):
        k = len(now)
        Z, v = sim.calls[t]
        ctx.check(Z == [[now[i][0][r] for i in range(k)] for r in range(2)], 'similarities of the current columns')
        d = dict(zip(combinations(range(k), 2), v))
        left, nxt = list(range(k)), []
        ctx.check(len(calls) >= (k + 1) // 2, 'number of combined columns')
        for q in range((k + 1) // 2):
            c, new = calls.pop(0)
            m = len(c[0])
            ix = [[[c[r][a] for r in range(2)] == now[i][0] for i in range(k)].index(True) for a in range(m)]
            ctx.check(m == (2 if len(left) > 1 else 1) and len(set(ix)) == m and set(ix) <= set(left), 'columns not combined yet')
            if m == 2:
                best = d[min(ix), max(ix)]
                for p in combinations(left, 2):
                    ctx.le(d[p], best, 'most similar pair')
            left = [i for i in left if i not in ix]
            nxt.append([new, sum([now[i][1] for i in ix], [])])
        ctx.check(not left, 'every column used')
        now = nxt
    ctx.check(not calls, 'no other columns combined')
    ctx.check(tuple(Y.shape) == (2, len(now)), 'shape')
    for i, (col, ix) in enumerate(now):
        for r in range(2):
            ctx.eq(Y[r, i], col[r], 'coarse column')
        ctx.check(sorted(int(x) for x in bins[i]) == sorted(ix), 'original columns of a coarse one')
    ctx.check(len(bins) == len(now), 'one list per coarse column')


@R.harness(encodes=['coniii.ising.automaton.coarse_grain'],
           bound='lattices up to 4 x 6, factors 1..3, every configuration and every outcome of the random choices', max_paths=20000,
           cases=[dict(a=2, b=2, f=2), dict(a=3, b=3, f=3), dict(a=2, b=4, f=2), dict(a=5, b=2, f=2), dict(a=2, b=2, f=1),
                  dict(a=3, b=5, f=2)],
           thorough=[dict(a=4, b=4, f=2), dict(a=6, b=4, f=2), dict(a=6, b=3, f=3), dict(a=4, b=5, f=2)])
def lattice(ctx, a, b, f):
    au = ctx.lib('ising.automaton')
    ctx.script_random(au)
    L = ctx.ints('s', (a, b), (-1, 1))
    keep = L.copy()
    M = au.coarse_grain(L, f)
    ctx.eq(L, keep, 'input unchanged')
    ctx.check(tuple(M.shape) == (a // f, b // f), 'shape')
    for i in range(a // f):
        for j in range(b // f):
            t = ctx.sum([keep[x, y] for x in range(i * f, i * f + f) for y in range(j * f, j * f + f)])
            ctx.implies(ctx.lt_(0, t), ctx.eq_(M[i, j], 1), 'majority up')
            ctx.implies(ctx.lt_(t, 0), ctx.eq_(M[i, j], -1), 'majority down')
            ctx.check(ctx.or_(ctx.eq_(M[i, j], 1), ctx.eq_(M[i, j], -1)), 'a direction')


TIES = {(2, 4): [[1, 1, 1, -1], [-1, -1, -1, 1]], (4, 2): [[1, -1], [1, -1], [-1, -1], [1, 1]], (4, 4): [[1, -1, 1, 1], [1, -1, 1, 1], [1, 1, 1, -1], [-1, -1, -1, 1]],
        (2, 6): [[1, -1, 1, 1, -1, 1], [-1, 1, -1, -1, 1, -1]]}


@R.harness(encodes=['coniii.ising.automaton.coarse_grain'], bound='lattices with 2 and 3 ties between blocks of 2 x 2',
           cases=[dict(dim=d, sign=1) for d in TIES], thorough=[dict(dim=d, sign=-1) for d in TIES])
def ties(ctx, dim, sign):
    """Blocks without majority take every combination of directions, equally likely."""
    au = ctx.lib('ising.automaton')
    m = Measure(ctx)
    ctx.random = m
    ctx.script_random(au)
    L = [[sign * x for x in r] for r in TIES[dim]]
    blocks = [(i, j) for i in range(dim[0] // 2) for j in range(dim[1] // 2)
              if not sum(L[2 * i + a][2 * j + b] for a in (0, 1) for b in (0, 1))]
    P = {t: 0 for t in product((-1, 1), repeat=len(blocks))}
    for M, prob in m.paths(lambda: au.coarse_grain(ctx.np.array(L), 2)):
        t = tuple(int(ctx.concrete(M[b])) for b in blocks)
        P[t] = P[t] + prob()
    for t, p in P.items():
        ctx.eq(p, ctx.frac(1, len(P)), 'ties are broken independently, in either direction with the same probability')


@R.harness(encodes=['coniii.ising.automaton.coarse_grain'], bound='lattices of up to 4 blocks of up to 400 x 400 int8 sites, each block all up or down',
           cases=[dict(f=f, a=1, b=2) for f in (12, 182, 200)], thorough=[dict(f=260, a=1, b=2), dict(f=200, a=2, b=2)])
def wide_blocks(ctx, f, a, b):
    """The majority of a large block does not depend on the width of the integers."""
    import numpy
    au = ctx.lib('ising.automaton')
    s = [[ctx.choice('s%d%d' % (i, j), (-1, 1)) for j in range(b)] for i in range(a)]
    M = au.coarse_grain(numpy.kron(numpy.array(s), numpy.ones((f, f), dtype=int)).astype('int8'), f)
    for i in range(a):
        for j in range(b):
            ctx.eq(M[i, j], s[i][j], 'majority of a uniform block')
