"""C04: correlation basis conversion agrees with the correlations of the converted spins."""
from itertools import combinations, product
from vf.engine import Registry

R = Registry()
U = 'coniii.utils.'


@R.harness(encodes=[U + 'convert_corr'], bound='n = 1..5 spins; an arbitrary (signed) weight on every one of the 2^n '
           'states, weights summing to 1', cases=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=5)])
def moments_of_any_distribution(ctx, n):
    """<s>, <ss> of an arbitrary distribution, taken in both bases, are images of each other."""
    u = ctx.lib('utils')
    S = list(product([0, 1], repeat=n))
    w = ctx.reals('w', len(S) - 1)
    w = list(w) + [1 - ctx.sum(list(w))]
    pairs = list(combinations(range(n), 2))

    def mom(f):
        m = ctx.np.array([ctx.sum([p * f(s[i]) for p, s in zip(w, S)]) for i in range(n)])
        c = [ctx.sum([p * (f(s[i]) * f(s[j])) for p, s in zip(w, S)]) for i, j in pairs]
        return m, (ctx.np.array(c) if c else ctx.np.zeros(0))
    m01, c01 = mom(lambda x: x)
    m11, c11 = mom(lambda x: 2 * x - 1)
    m01c, c01c = m01.copy(), c01.copy()
    a, b = u.convert_corr(m01, c01, '11')
    ctx.eq(a, m11, 'means to 11')
    ctx.eq(b, c11, 'pairs to 11')
    a, b = u.convert_corr(m11, c11, '01')
    ctx.eq(a, m01, 'means to 01')
    ctx.eq(b, c01, 'pairs to 01')
    ctx.eq(u.convert_corr(m01, c01, '11', concat=True), ctx.np.concatenate((m11, c11)), 'concat')
    ctx.eq(u.convert_corr(m11, c11, '01', concat=True), ctx.np.concatenate((m01, c01)), 'concat')
    ctx.eq(m01, m01c, 'input unchanged')
    ctx.eq(c01, c01c, 'input unchanged')


@R.harness(encodes=[U + 'convert_corr'], bound='n = 2..4, 12, 20 (thorough 6, 35), arbitrary real means and correlations',
           cases=[dict(n=n) for n in (2, 3, 4, 12, 20)], thorough=[dict(n=6), dict(n=35)])
def round_trip(ctx, n):
    u = ctx.lib('utils')
    m, c = ctx.reals('m', n), ctx.reals('c', n * (n - 1) // 2)
    for x, y in (('11', '01'), ('01', '11')):
        a, b = u.convert_corr(*u.convert_corr(m, c, x), y)
        ctx.eq(a, m, 'round trip means')
        ctx.eq(b, c, 'round trip pairs')
    ctx.eq(u.convert_corr(m, c, None, convertTo='01', concat=True), u.convert_corr(m, c, '01', concat=True), 'deprecated keyword')
    ctx.raises(lambda: u.convert_corr(m, c, '12'), Exception, 'invalid basis rejected')
    ctx.raises(lambda: u.convert_corr(m, c, '11', foo=1), TypeError, 'unknown keyword rejected')


@R.harness(encodes=[U + 'convert_corr', U + 'pair_corr'], bound='2..3 samples of n = 2..3 symbolic {0,1} spins, '
           'uniform and arbitrary sample weights', cases=[dict(S=2, n=2), dict(S=2, n=3), dict(S=3, n=3)])
def commutes_with_pair_corr(ctx, S, n):
    u = ctx.lib('utils')
    X = ctx.ints('X', (S, n), (0, 1))
    m, c = u.pair_corr(X)
    a, b = u.convert_corr(m, c, '11')
    p, q = u.pair_corr(2 * X - 1)
    ctx.eq(a, p, 'means')
    ctx.eq(b, q, 'pairs')
    a, b = u.convert_corr(p, q, '01')
    ctx.eq(a, m, 'means back')
    ctx.eq(b, c, 'pairs back')


@R.harness(encodes=[U + 'convert_corr'], bound='n = 2..3 spins, means and correlations in integer arrays (a single state, frozen spins)',
           cases=[dict(n=n, to=t, flt=f) for n in (2, 3) for t in ('01', '11') for f in (False, True)])
def integer_moments(ctx, n, to, flt):
    cc = ctx.lib('utils').convert_corr
    si = ctx.ints('m', n, (-1, 0, 1)) if not flt else ctx.reals('m', n)
    ss = ctx.ints('c', n * (n - 1) // 2, (-1, 0, 1))
    a, b = cc(si, ss, to)
    pairs = list(combinations(range(n), 2))
    if to == '01':
        ctx.eq(a, [(si[i] + 1) * ctx.frac(1, 2) for i in range(n)], 'means')
        ctx.eq(b, [(ss[q] + si[i] + si[j] + 1) * ctx.frac(1, 4) for q, (i, j) in enumerate(pairs)], 'correlations')
    else:
        ctx.eq(a, [2 * si[i] - 1 for i in range(n)], 'means')
        ctx.eq(b, [4 * ss[q] - 2 * si[i] - 2 * si[j] + 1 for q, (i, j) in enumerate(pairs)], 'correlations')
