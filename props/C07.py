"""C07: state enumerators list every state exactly once, in ascending base-k order."""
import numpy as np
from vf.engine import Registry

R = Registry()
U = 'coniii.utils.'
DIG = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def rank_check(ctx, rows, n, k, vals, label):
    """For every symbolic state s: the row number rank(s) is s, i.e. rows[i]==s <=> i==rank(s)."""
    s = ctx.ints('s', n, range(k))
    rank = ctx.sum([s[i] * k**(n - 1 - i) for i in range(n)])
    ctx.check(len(rows) == k**n, label + ': number of states')
    for i, row in enumerate(rows):
        row = [ctx.concrete(x) for x in row]
        ctx.check(len(row) == n, label + ': row length')
        m = ctx.and_(*[ctx.eq_(vals[s_] if not ctx.symbolic else _lookup(ctx, vals, s_), x) for s_, x in zip(s, row)])
        ctx.iff(m, ctx.eq_(rank, i), label + ' row %d' % i)


def _lookup(ctx, vals, s):
    r = vals[0]
    for j in range(1, len(vals)):
        r = ctx.ite(ctx.eq_(s, j), vals[j], r)
    return r


@R.harness(encodes=[U + 'bin_states', U + 'xbin_states'], bound='n = 1..6 (quick), ..9 (thorough) spins, every state',
           cases=[dict(n=n, sym=s) for n in (1, 2, 3, 4, 5, 6) for s in (False, True)],
           thorough=[dict(n=n, sym=s) for n in (8, 9, 11) for s in (False, True)])
def binary(ctx, n, sym):
    u = ctx.lib('utils')
    vals = (-1, 1) if sym else (0, 1)
    rank_check(ctx, u.bin_states(n, sym), n, 2, vals, 'bin_states')
    rank_check(ctx, list(u.xbin_states(n, sym)), n, 2, vals, 'xbin_states')


@R.harness(encodes=[U + 'bin_states'], bound='every n < 0 or n > 30')
def out_of_range(ctx):
    u = ctx.lib('utils')
    n = ctx.integer('n', -1000, 1000)
    ctx.assume(ctx.or_(ctx.lt_(n, 0), ctx.lt_(30, n)))
    ctx.raises(lambda: u.bin_states(n), Exception, 'rejected')


@R.harness(encodes=[U + 'xpotts_states', U + 'base_repr', U + '_small_base', U + '_large_base'],
           bound='n <= 4 spins, k <= 12 states per spin, every state; log() rounding as in the host libm',
           cases=[dict(n=n, k=k) for n, k in ((1, 2), (2, 2), (4, 2), (3, 3), (2, 5), (2, 9), (2, 10), (2, 11), (2, 12))],
           thorough=[dict(n=n, k=k) for n, k in ((5, 3), (4, 4), (3, 7), (2, 20), (2, 36))])
def potts(ctx, n, k):
    u = ctx.lib('utils')
    rank = {d: i for i, d in enumerate(DIG)}
    rows = [[rank[c] for c in row] for row in u.xpotts_states(n, k)]
    rank_check(ctx, rows, n, k, tuple(range(k)), 'xpotts_states')


@R.harness(encodes=[U + 'base_repr', U + '_small_base', U + '_large_base'],
           bound='base_repr: representative bases 2..36, every i in the stated interval, i symbolic (interval around a '
           'power of the base for large i); int(log(i)/log(base)) rounds as on this host', timeout_ms=8000,
           cases=[dict(base=2, lo=1, hi=64), dict(base=3, lo=1, hi=30), dict(base=10, lo=1, hi=120),
                  dict(base=11, lo=1, hi=122), dict(base=36, lo=1, hi=40), dict(base=20, lo=390, hi=420),
                  dict(base=2, lo=2**49 - 1, hi=2**49), dict(base=10, lo=10**15 - 3, hi=10**15 + 2),
                  dict(base=36, lo=36**9 - 3, hi=36**9 + 2)],
           thorough=[dict(base=2, lo=1, hi=600), dict(base=3, lo=1, hi=800), dict(base=7, lo=1, hi=400),
                     dict(base=16, lo=1, hi=300), dict(base=19, lo=1, hi=400), dict(base=36, lo=1, hi=1400),
                     dict(base=3, lo=3**33 - 6, hi=3**33 + 6)], max_paths=20000)
def digits(ctx, base, lo, hi):
    """base_repr(i) is the standard positional representation, for symbolic i."""
    u = ctx.lib('utils')
    i = ctx.integer('i', lo, hi)
    r = u.base_repr(i, base)
    val = 0
    ctx.check(r[0] != '0', 'no leading zero')
    for c in r:
        val = val * base + DIG.index(c)
        ctx.check(DIG.index(c) < base, 'digit below base')
    ctx.eq(i, val, 'positional value')


@R.harness(encodes=[U + 'base_repr', U + '_small_base', U + '_large_base'], timeout_ms=20000,
           bound='base_repr: all bases 2..36 and every i below the given power of the base (at least 10^5), i symbolic, subscripts '
           'of literal digit tables symbolic', max_paths=2000,
           cases=[dict(base=b, D=20 if b == 2 else 12 if b < 5 else 7 if b < 11 else 5 if b < 20 else 4) for b in range(2, 37)],
           thorough=[dict(base=b, D=40 if b == 2 else 14 if b < 8 else 9) for b in range(2, 37)])
def every_number(ctx, base, D):
    """The standard positional representation of every number."""
    from vf.lift import Digit, DigitTable
    from vf.expr import Unsupported
    u = ctx.lib('utils')
    i = ctx.integer('i', 1, base**D - 1, spread=True)
    DigitTable.on = True
    try:
        r = u.base_repr(i, base)
    except (TypeError, AttributeError, Unsupported):
        if not ctx.symbolic:
            raise
        r = None            # digits made in another way: decided on the intervals of `digits`
    finally:
        DigitTable.on = False
    if r is None:
        ctx.check(True, 'not applicable')
        return
    val = 0
    for k, c in enumerate(r):
        if isinstance(c, Digit):
            ctx.check(c.table[:base] == DIG[:base], 'digits in order')
            d = c.index
        else:
            d = DIG.index(c)
        ctx.check(ctx.and_(ctx.le_(0, d), ctx.le_(d, base - 1)), 'digit below base')
        if k == 0:
            ctx.check(ctx.le_(1, d), 'no leading zero')
        val = val * base + d
    ctx.eq(i, val, 'positional value')


@R.harness(encodes=[U + 'base_repr'], bound='i = 0, bases 2..36')
def zero(ctx):
    u = ctx.lib('utils')
    b = ctx.choice('b', range(2, 37))
    ctx.check(list(u.base_repr(0, b)) == ['0'], 'zero is a single 0 digit')


@R.harness(encodes=[U + 'multinomial'], bound='up to 4 values and 12 spins (thorough 20), every occupation', max_paths=20000,
           cases=[dict(k=2, N=12), dict(k=3, N=9), dict(k=4, N=6)], thorough=[dict(k=2, N=40), dict(k=3, N=20), dict(k=4, N=10)])
def multinomials(ctx, k, N):
    """The number of states of n spins with given occupations of k values, by splitting off the last spin."""
    u = ctx.lib('utils')
    n = int(ctx.choice('n', range(N + 1)))
    a = []
    for i in range(k - 1):
        a.append(int(ctx.choice('a%d' % i, range(n - sum(a) + 1))))
    a.append(n - sum(a))
    r = u.multinomial(n, *a)
    if n == 0:
        ctx.eq(r, 1, 'one empty state')
        return
    ctx.eq(r, sum(u.multinomial(n - 1, *[x - (i == j) for i, x in enumerate(a)]) for j in range(k) if a[j]),
           'states with these occupations')
    ctx.raises(lambda: u.multinomial(n + 1, *a), Exception, 'occupations must add up')


@R.harness(encodes=['coniii.enumerate.get_nidx'], bound='n = 1..6 (thorough 8), every order', max_paths=20000,
           cases=[dict(n=n, k=k) for n in range(1, 6) for k in range(1, n + 1)],
           thorough=[dict(n=n, k=k) for n in (6, 7, 8) for k in range(1, n + 1)])
def subsets_of_spins(ctx, n, k):
    """Columns are the states with k active spins, each once, indices ascending, last index fastest."""
    en = ctx.lib('enumerate')
    ix = en.get_nidx(k, n)
    s = ctx.ints('s', n, (0, 1))
    ctx.assume(ctx.eq_(ctx.sum(list(s)), k))
    seen = []
    cols = list(ix.T) if k < n else [list(ix[:, 0])]
    for c in cols:
        c = [int(ctx.concrete(x)) for x in c]
        ctx.check(c == sorted(set(c)) and len(c) == k and 0 <= c[0] and c[-1] < n, 'ascending indices')
        ctx.check(not seen or seen[-1][1] < c, 'order of the columns')
        seen.append((ctx.and_(*[ctx.eq_(s[i], 1) for i in c]), c))
    ctx.check(ctx.or_(*[x for x, _ in seen]), 'every state has its column')
