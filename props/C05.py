"""C05: flattened-index maps are the row-major upper-triangular bijection."""
from itertools import combinations
from vf.engine import Registry

R = Registry()
U = 'coniii.utils.'


@R.harness(encodes=[U + 'sub_to_ind'], bound='first coordinate 0..6, 15, 40 (loop unrolling), every n and every second '
           'coordinate below n (unbounded integers)', cases=[dict(i=i) for i in (0, 1, 2, 3, 4, 5, 6, 15, 40)], thorough=[
               dict(i=i) for i in range(7, 30)])
def sub_to_ind(ctx, i):
    u = ctx.lib('utils')
    n = ctx.integer('n', i + 2, 10**6)
    j = ctx.integer('j', i + 1, 10**6)
    ctx.assume(j < n)
    want = i * n - (i * (i + 1)) // 2 + (j - i - 1)
    ctx.eq(u.sub_to_ind(n, i, j), want, 'index of (i,j)')
    ctx.eq(u.sub_to_ind(n, j, i), want, 'index is symmetric')
    ctx.raises(lambda: u.sub_to_ind(n, i, i), Exception, 'equal coordinates rejected')


@R.harness(encodes=[U + 'sub_to_ind', U + 'ind_to_sub'], bound='n = 2..6, 10 (quick), ..20 (thorough), every index / '
           'coordinate pair', cases=[dict(n=n) for n in (2, 3, 4, 5, 6, 10)], thorough=[dict(n=n) for n in (8, 12, 20)])
def inverse(ctx, n):
    u = ctx.lib('utils')
    m = n * (n - 1) // 2
    ix = ctx.int('ix', range(m))
    i, j = u.ind_to_sub(n, ix)
    ctx.check(ctx.and_(0 <= i, ctx.lt_(i, j), ctx.lt_(j, n)), 'coordinates in range and ordered')
    ctx.eq(u.sub_to_ind(n, i, j), ix, 'sub_to_ind inverts ind_to_sub')
    ctx.eq(u.sub_to_ind(n, j, i), ix, 'symmetric')
    ctx.eq(u.unravel_index((int(i), int(j)), n), ix, 'agrees with unravel_index')


@R.harness(encodes=[U + 'unravel_index'], bound='order k = 1..5 tuples of n <= 7 sites; all ordered tuples',
           cases=[dict(n=n, k=k) for n, k in ((3, 1), (4, 2), (4, 3), (5, 3), (5, 4), (6, 3))],
           thorough=[dict(n=n, k=k) for n, k in ((6, 4), (6, 5), (7, 3), (7, 4), (8, 4), (7, 6))], max_paths=20000)
def unravel(ctx, n, k):
    """unravel_index is the lexicographic rank among ordered k-tuples."""
    u = ctx.lib('utils')
    t = tuple(ctx.int('t%d' % i, range(n)) for i in range(k))
    for a, b in zip(t, t[1:]):
        ctx.assume(ctx.lt_(a, b))
    r = u.unravel_index(t, n)
    # rank = number of tuples that precede t lexicographically
    cnt = []
    for c in combinations(range(n), k):
        less = False
        for pos in reversed(range(k)):
            less = ctx.or_(ctx.lt_(c[pos], t[pos]), ctx.and_(ctx.eq_(c[pos], t[pos]), less))
        cnt.append(ctx.ite(less, 1, 0))
    ctx.eq(r, ctx.sum(cnt), 'lexicographic rank')


@R.harness(encodes=[U + 'unravel_index'], bound='n <= 6, orders 2..3, all unordered or out-of-range tuples',
           cases=[dict(n=4, k=2), dict(n=4, k=3)], thorough=[dict(n=6, k=3)], max_paths=20000)
def unravel_rejects(ctx, n, k):
    u = ctx.lib('utils')
    t = tuple(ctx.int('t%d' % i, range(n + 1)) for i in range(k))
    bad = ctx.or_(*([ctx.le_(b, a) for a, b in zip(t, t[1:])] + [ctx.le_(n, a) for a in t]))
    ctx.assume(bad)
    ctx.raises(lambda: u.unravel_index(t, n), AssertionError, 'unordered or out-of-range tuple rejected')


@R.harness(encodes=[U + 'split_concat_params'], bound='n = 2..5 with orders 1..4, n = 20 pairwise, n = 10 triplets; arbitrary values',
           cases=[dict(n=n, o=o) for n, o in ((2, 1), (2, 2), (3, 2), (3, 3), (4, 3), (5, 2), (20, 2), (10, 3))],
           thorough=[dict(n=5, o=5), dict(n=6, o=3)])
def split(ctx, n, o):
    u = ctx.lib('utils')
    p = [ctx.reals('p%d' % k, len(list(combinations(range(n), k)))) for k in range(1, o + 1)]
    q = u.split_concat_params(ctx.np.concatenate(p), n)
    ctx.check(len(q) == o, 'number of orders')
    for a, b in zip(p, q):
        ctx.eq(b, a, 'order recovered')
