"""C09: sample statistics are the weighted averages they claim to be."""
from itertools import combinations
from vf.engine import Registry

R = Registry()
U = 'coniii.utils.'
D3 = (-1, 0, 1)


def prod(x):
    r = 1
    for y in x:
        r = r * y
    return r


def ind(ctx, c):
    return ctx.ite(c, 1, 0)


@R.harness(encodes=[U + 'pair_corr'], bound='samples of 1..3, 12, 20 states (thorough 4) of 2..4, 12 spins (thorough 14) over {-1,0,1}; no weights, '
           'a common weight, one real weight per state, or one real weight per moment',
           cases=[dict(S=S, n=n, w=w) for S, n in ((1, 2), (2, 3), (3, 2), (2, 4)) for w in (
               'none', 'scalar', 'state', 'moment')] + [dict(S=2, n=12, w='state'), dict(S=20, n=3, w='moment'), dict(S=12, n=3, w='none')],
           thorough=[dict(S=4, n=4, w=w) for w in ('none', 'state')] + [dict(S=2, n=14, w=w) for w in ('none', 'moment')])
def averages(ctx, S, n, w):
    u = ctx.lib('utils')
    X = ctx.ints('x', (S, n), D3)
    X0 = X.copy()
    pairs = list(combinations(range(n), 2))
    if w == 'none':
        kw, ws = {}, [ctx.frac(1, S)] * S
    elif w == 'scalar':
        c = ctx.real('c')
        kw, ws = {'weights': c}, [c] * S
    elif w == 'state':
        W = ctx.reals('w', S)
        kw, ws = {'weights': W}, list(W)
    else:
        A, B = ctx.reals('a', n), ctx.reals('b', len(pairs))
        kw = {'weights': (A, B)}
    if w == 'moment':
        si = [A[i] * ctx.sum([X[r, i] for r in range(S)]) for i in range(n)]
        sisj = [B[q] * ctx.sum([X[r, i] * X[r, j] for r in range(S)]) for q, (i, j) in enumerate(pairs)]
    else:
        si = [ctx.sum([ws[r] * X[r, i] for r in range(S)]) for i in range(n)]
        sisj = [ctx.sum([ws[r] * X[r, i] * X[r, j] for r in range(S)]) for i, j in pairs]
    a, b = u.pair_corr(X, **kw)
    ctx.check(len(a) == n and len(b) == len(pairs), 'lengths')
    for i in range(n):
        ctx.eq(a[i], si[i], 'mean %d' % i)
    for q in range(len(pairs)):
        ctx.eq(b[q], sisj[q], 'pair %s' % (pairs[q],))
    c = u.pair_corr(X, concat=True, **kw)
    ctx.check(len(c) == n + len(pairs), 'concatenated length')
    for q in range(n + len(pairs)):
        ctx.eq(c[q], (si + sisj)[q], 'concatenated')
    a, b = u.pair_corr(X, subtract_mean=True, **kw)
    for q, (i, j) in enumerate(pairs):
        ctx.eq(b[q], sisj[q] - si[i] * si[j], 'covariance %s' % (pairs[q],))
    ctx.eq(X, X0, 'sample unchanged')


@R.harness(encodes=[U + 'pair_corr'], bound='samples of 2..3 states of 2..3 spins over {-1,0,1}, zeros meaning missing',
           cases=[dict(S=S, n=n, lap=l) for S, n in ((2, 2), (3, 2), (2, 3)) for l in (False, True)],
           thorough=[dict(S=4, n=3, lap=l) for l in (False, True)])
def exclude_empty(ctx, S, n, lap):
    u = ctx.lib('utils')
    X = ctx.ints('x', (S, n), D3)
    pairs = list(combinations(range(n), 2))
    cnt = [ctx.sum([ind(ctx, ctx.not_(ctx.eq_(X[r, i], 0))) for r in range(S)]) for i in range(n)]
    cp = [ctx.sum([ind(ctx, ctx.not_(ctx.eq_(X[r, i] * X[r, j], 0))) for r in range(S)]) for i, j in pairs]
    if not lap:
        for c in cp:
            ctx.assume(ctx.lt_(0, c))
    a, b = u.pair_corr(X, exclude_empty=True, laplace_count=lap)
    for i in range(n):
        ctx.eq(a[i] * (cnt[i] + (2 if lap else 0)), ctx.sum([X[r, i] for r in range(S)]), 'mean over recorded')
    for q, (i, j) in enumerate(pairs):
        ctx.eq(b[q] * (cp[q] + (4 if lap else 0)), ctx.sum([X[r, i] * X[r, j] for r in range(S)]), 'pair over recorded')


@R.harness(encodes=[U + 'pair_corr', U + 'k_corr'], bound='any integer entry outside {-1,0,1} in a 2x2 sample')
def rejects(ctx):
    u = ctx.lib('utils')
    X = ctx.ints('x', (2, 2), (-2, -1, 0, 1, 2, 3))
    ctx.assume(ctx.or_(*[ctx.or_(ctx.lt_(1, x), ctx.lt_(x, -1)) for x in list(X[0]) + list(X[1])]))
    ctx.raises(lambda: u.pair_corr(X), Exception, 'pair_corr rejects')
    ctx.raises(lambda: u.k_corr(X, 2), Exception, 'k_corr rejects')


@R.harness(encodes=[U + 'k_corr'], bound='orders 1..4, samples of 2 states of up to 4, 10 (pairs) and 8 (triplets) spins over {-1,0,1}, real weights',
           cases=[dict(n=n, k=k, w=w) for n in (2, 3, 4) for k in (1, 2, 3, 4) if k <= n for w in (False, True)] + [
               dict(n=10, k=2, w=True), dict(n=8, k=3, w=False)],
           thorough=[dict(n=5, k=k, w=True) for k in (2, 3, 5)])
def k_corr(ctx, n, k, w):
    u = ctx.lib('utils')
    X = ctx.ints('x', (2, n), D3)
    W = ctx.reals('w', 2)
    ws = list(W) if w else [ctx.frac(1, 2)] * 2
    got = u.k_corr(X, k, weights=W) if w else u.k_corr(X, k)
    ts = list(combinations(range(n), k))
    ctx.check(len(got) == len(ts), 'length')
    for g, t in zip(got, ts):
        ctx.eq(g, ctx.sum([ws[r] * prod([X[r, i] for i in t]) for r in range(2)]), 'average of %s' % (t,))


@R.harness(encodes=[U + 'k_corr'], bound='orders 2..3, 2 states of 3 spins over {-1,0,1}', cases=[dict(k=2), dict(k=3)])
def k_corr_exclude_empty(ctx, k):
    u = ctx.lib('utils')
    X = ctx.ints('x', (2, 3), D3)
    ts = list(combinations(range(3), k))
    cs = [ctx.sum([ind(ctx, ctx.not_(ctx.eq_(prod([X[r, i] for i in t]), 0))) for r in range(2)]) for t in ts]
    for c in cs:
        ctx.assume(ctx.lt_(0, c))
    got = u.k_corr(X, k, exclude_empty=True)
    for g, t, c in zip(got, ts, cs):
        ctx.eq(g * c, ctx.sum([prod([X[r, i] for i in t]) for r in range(2)]), 'average over recorded')


@R.harness(encodes=[U + 'calc_overlap'], bound='2 replicas of 3 spins over {-1,0,1}', cases=[dict(iz=z) for z in (False, True)])
def overlap(ctx, iz):
    u = ctx.lib('utils')
    X = ctx.ints('x', (2, 3), D3)
    if iz:
        z = [ctx.sum([ind(ctx, ctx.eq_(x, 0)) for x in X[r]]) for r in range(2)]
        for q in z:
            ctx.assume(ctx.lt_(q, 3))
    q = u.calc_overlap(X, ignore_zeros=iz)
    ctx.check(tuple(q.shape) == (2, 2), 'shape')
    for a in range(2):
        for b in range(2):
            d = 3 if not iz else 3 - ctx.max([z[a], z[b]])
            ctx.eq(q[a, b] * d, ctx.sum([X[a, i] * X[b, i] for i in range(3)]), 'overlap %d %d' % (a, b))


@R.harness(encodes=[U + 'state_probs'], bound='samples of 2..3 states of 2 spins over {-1,1}; all four states listed; '
           'optional positive real weights', cases=[dict(S=S, w=w, nrm=m) for S in (2, 3) for w in (False, True)
                                                    for m in (False, True)])
def state_probs(ctx, S, w, nrm):
    u = ctx.lib('utils')
    X = ctx.ints('x', (S, 2), (-1, 1))
    W = ctx.reals('w', S, pos=True)
    ws = list(W) if w else [1] * S
    allst = ctx.array([[-1, -1], [-1, 1], [1, -1], [1, 1]])
    kw = {'weights': W} if w else {}
    f = u.state_probs(X, allstates=allst, normalized=nrm, **kw)
    tot = ctx.sum(ws)
    for q, st in enumerate([(-1, -1), (-1, 1), (1, -1), (1, 1)]):
        want = ctx.sum([ws[r] * ind(ctx, ctx.and_(ctx.eq_(X[r, 0], st[0]), ctx.eq_(X[r, 1], st[1]))) for r in range(S)])
        ctx.eq(f[q] * (tot if nrm else 1), want, 'weight of state %s' % (st,))


@R.harness(encodes=[U + 'pair_corr', U + 'k_corr', U + 'calc_overlap', 'coniii.mean_field_ising.cooccurrence_matrix'],
           bound='int8 samples of 130 + 3 copies of any two states of 2 spins, real weights of the moments; overlaps of two replicas of 133 spins',
           max_paths=20000, cases=[dict(dtype='int8'), dict(dtype='float64')])
def narrow_integers(ctx, dtype):
    """The sums over a sample do not depend on the width of its type."""
    import numpy
    u, mf = ctx.lib('utils'), ctx.lib('mean_field_ising')
    st = [[ctx.choice('x%d%d' % (r, i), D3) for i in range(2)] for r in range(2)]
    X = numpy.array([st[0]] * 130 + [st[1]] * 3, dtype=dtype)
    cnt = (130, 3)

    def close(p, q, label):
        # the sums are evaluated in floating point
        ctx.le(p - q, 1e-6, label)
        ctx.le(q - p, 1e-6, label)
    A, B = ctx.reals('a', 2), ctx.reals('b', 1)
    one = [ctx.sum([cnt[r] * st[r][i] for r in range(2)]) for i in range(2)]
    two = ctx.sum([cnt[r] * st[r][0] * st[r][1] for r in range(2)])
    a, b = u.pair_corr(X, weights=(A, B))
    for i in range(2):
        ctx.eq(a[i], A[i] * one[i], 'weighted mean')
    ctx.eq(b[0], B[0] * two, 'weighted pair')
    a, b = u.pair_corr(X)
    for i in range(2):
        close(a[i] * 133, one[i], 'mean')
    close(b[0] * 133, two, 'pair')
    n = [sum(c for c, s in zip(cnt, st) if s[i]) for i in range(2)]
    m = sum(c for c, s in zip(cnt, st) if s[0] and s[1])
    if m:
        a, b = u.pair_corr(X, exclude_empty=True)
        for i in range(2):
            close(a[i] * n[i], one[i], 'mean over recorded')
        close(b[0] * m, two, 'pair over recorded')
        close(u.k_corr(X, 2, exclude_empty=True)[0] * m, two, 'k-th order over recorded')
    close(u.k_corr(X, 2)[0] * 133, two, 'k-th order')
    q = u.calc_overlap(numpy.ascontiguousarray(X.T))
    close(q[0, 1] * 133, two, 'overlap')
    close(q[0, 0] * 133, n[0], 'overlap with itself')
    close(mf.cooccurrence_matrix(X)[0, 1] * 133, two, 'cooccurrence')


@R.harness(encodes=[U + 'state_probs', U + 'unique_rows'], bound='samples of up to 3 states of 2 spins over {-1,0,1}', max_paths=20000,
           cases=[dict(S=1, n=2), dict(S=2, n=2), dict(S=3, n=1), dict(S=3, n=2)], thorough=[dict(S=2, n=3), dict(S=4, n=1)])
def states_found(ctx, S, n):
    """Without a list of states, every state found is returned once with its frequency."""
    u = ctx.lib('utils')
    rows = [tuple(ctx.choice('x%d%d' % (r, i), D3) for i in range(n)) for r in range(S)]
    X = ctx.np.array([list(r) for r in rows])
    for nrm in (True, False):
        f, st = u.state_probs(X, normalized=nrm)
        got = [tuple(int(ctx.concrete(x)) for x in r) for r in st]
        ctx.check(sorted(got) == sorted(set(rows)) and len(f) == len(got), 'states found')
        for s, q in zip(got, f):
            ctx.eq(q * (S if nrm else 1), rows.count(s), 'frequency of a state')
    ix = [int(ctx.concrete(i)) for i in u.unique_rows(X)]
    ctx.check(sorted(rows[i] for i in ix) == sorted(set(rows)), 'one row per state')
    inv = [int(ctx.concrete(i)) for i in u.unique_rows(X, return_inverse=True)]
    ctx.check([rows[ix[k]] for k in inv] == rows, 'rows restored')
