"""C06: vector and matrix forms of the parameters hold the same fields and couplings."""
from itertools import combinations
from vf.engine import Registry

R = Registry()
U = 'coniii.utils.'


def numbers(ctx, name, shape, kind):
    return ctx.ints(name, shape, (-2, -1, 0, 1, 2)) if kind == 'int' else ctx.reals(name, shape)


@R.harness(encodes=[U + 'vec2mat', U + 'mat2vec', U + 'replace_diag', U + 'zero_diag'],
           bound='n = 2..5 and 20 spins (thorough ..8, 40), arbitrary real parameters, or whole numbers -2..2',
           cases=[dict(n=n) for n in (2, 3, 4, 5, 20)] + [dict(n=n, p='int') for n in (2, 3)], thorough=[dict(n=n) for n in (6, 7, 8, 40)])
def vec_mat(ctx, n, p='real'):
    u = ctx.lib('utils')
    p = numbers(ctx, 'p', n + n * (n - 1) // 2, p)
    p0 = p.copy()
    M = u.vec2mat(p)
    ctx.check(tuple(M.shape) == (n, n), 'shape')
    for i in range(n):
        ctx.eq(M[i, i], p[i], 'field on the diagonal')
    for k, (i, j) in enumerate(combinations(range(n), 2)):
        ctx.eq(M[i, j], p[n + k], 'coupling')
        ctx.eq(M[j, i], p[n + k], 'coupling symmetric')
    ctx.eq(u.mat2vec(M), p, 'round trip')
    h, J = u.vec2mat(p, separate_fields=True)
    ctx.eq(h, p[:n], 'separate fields')
    for k, (i, j) in enumerate(combinations(range(n), 2)):
        ctx.eq(J[i, j], p[n + k], 'coupling (separate)')
        ctx.eq(J[j, i], p[n + k], 'coupling (separate)')
    for i in range(n):
        ctx.eq(J[i, i], 0, 'zero diagonal (separate)')
    ctx.eq(p, p0, 'input unchanged')


@R.harness(encodes=[U + 'replace_diag', U + 'zero_diag'], bound='n = 1..4, 20 (thorough 7, 30), arbitrary square real matrix and real diagonal, or '
           'whole numbers -2..2 for either', cases=[dict(n=n) for n in (1, 2, 3, 4, 20)] + [dict(n=n, M=a, d=b) for n in (1, 3) for a, b in (
               ('int', 'real'), ('real', 'int'), ('int', 'int'))], thorough=[dict(n=7), dict(n=30)])
def diag(ctx, n, M='real', d='real'):
    u = ctx.lib('utils')
    M, d = numbers(ctx, 'M', (n, n), M), numbers(ctx, 'd', n, d)
    M0 = M.copy()
    A, Z = u.replace_diag(M, d), u.zero_diag(M)
    for i in range(n):
        for j in range(n):
            ctx.eq(A[i, j], d[i] if i == j else M[i, j], 'replace_diag')
            ctx.eq(Z[i, j], 0 if i == j else M[i, j], 'zero_diag')
    ctx.eq(M, M0, 'input unchanged')
    ctx.raises(lambda: u.replace_diag(M, ctx.reals('e', n + 1)), Exception, 'wrong length rejected')
    ctx.raises(lambda: u.replace_diag(M, ctx.reals('f', (n, 1))), Exception, '2d diagonal rejected')
    ctx.raises(lambda: u.replace_diag(ctx.reals('g', (n, n + 1)), d), Exception, 'non-square rejected')
