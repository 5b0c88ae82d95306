"""C03: parameter basis conversion preserves the model."""
from itertools import combinations, product
import numpy as np
from vf.engine import Registry
from props.C06 import numbers

R = Registry()
U = 'coniii.utils.'


def energy(ctx, n, params, s):
    """- sum over interactions of all orders; params: list of coefficient vectors by order."""
    t = []
    for order, p in enumerate(params, 1):
        for c, ijk in zip(p, combinations(range(n), order)):
            z = 1
            for i in ijk:
                z = z * int(s[i])
            t.append(-c * z)
    return ctx.sum(t)


def same_model(ctx, n, p01, p11, label):
    """E_01(s) - E_11(2s-1) must not depend on s."""
    c0 = None
    for s in product([0, 1], repeat=n):
        d = energy(ctx, n, p01, s) - energy(ctx, n, p11, [2 * x - 1 for x in s])
        if c0 is None:
            c0 = d
        else:
            ctx.eq(d, c0, label + ' state %s' % (s,))


@R.harness(encodes=[U + 'convert_params'], bound='n = 2..4 and 8 spins (thorough 5, 6, 12), real fields/couplings, or whole numbers -2..2; vector and matrix couplings',
           cases=[dict(n=n, mat=m) for n in (2, 3, 4, 8) for m in (False, True)] + [
               dict(n=3, mat=m, kind=k) for m in (False, True) for k in (('int', 'int'), ('int', 'real'), ('real', 'int'))],
           thorough=[dict(n=n, mat=m) for n in (5, 6, 12) for m in (False, True)])
def convert_params(ctx, n, mat, kind=('real', 'real')):
    u = ctx.lib('utils')
    h, J = numbers(ctx, 'h', n, kind[0]), numbers(ctx, 'J', n * (n - 1) // 2, kind[1])
    Jin = J
    if mat:
        Jin = ctx.np.zeros((n, n), dtype=int if kind[1] == 'int' else float)
        for k, (i, j) in enumerate(combinations(range(n), 2)):
            Jin[i, j] = J[k]
            Jin[j, i] = J[k]
    for to in ('11', '01'):
        h0, J0 = h.copy(), Jin.copy()
        hp, Jp = u.convert_params(h, Jin, to)
        p01, p11 = ((h, J), (hp, Jp)) if to == '11' else ((hp, Jp), (h, J))
        same_model(ctx, n, p01, p11, 'convert to ' + to)
        cc = u.convert_params(h, Jin, to, concat=True)
        ctx.eq(cc, ctx.np.concatenate((hp, Jp)), 'concat')
        bh, bJ = u.convert_params(hp, Jp, '01' if to == '11' else '11')
        ctx.eq(bh, h, 'round trip h ' + to)
        ctx.eq(bJ, J, 'round trip J ' + to)
        ctx.eq(h, h0, 'input h unchanged')
        ctx.eq(Jin, J0, 'input J unchanged')
    ctx.raises(lambda: u.convert_params(h, Jin, '10'), Exception, 'invalid basis rejected')


@R.harness(encodes=[U + 'ising_convert_params', U + 'unravel_index'],
           bound='n = 2..4, 6, 8 spins (thorough 5, 9, 12), interaction orders 1..4, real coefficients, or whole numbers -2..2',
           cases=[dict(n=n, o=o) for n, o in ((2, 1), (2, 2), (3, 2), (3, 3), (4, 2), (4, 3), (4, 4), (8, 2), (6, 3))] + [
               dict(n=3, o=3, ints=k) for k in (0, 1, 2, (0, 1, 2))],
           thorough=[dict(n=n, o=o) for n, o in ((5, 2), (5, 3), (5, 4), (5, 5), (12, 2), (9, 3))])
def ising_convert_params(ctx, n, o, ints=()):
    u = ctx.lib('utils')
    ints = (ints,) if isinstance(ints, int) else ints
    p = [numbers(ctx, 'p%d' % k, len(list(combinations(range(n), k))), 'int' if k - 1 in ints else 'real') for k in range(1, o + 1)]
    p0 = [x.copy() for x in p]
    for to in ('11', '01'):
        q = u.ising_convert_params(tuple(p), to)
        ctx.check(len(q) == o, 'number of orders')
        p01, p11 = (p, q) if to == '11' else (q, p)
        same_model(ctx, n, p01, p11, 'convert to ' + to)
        b = u.ising_convert_params(tuple(q), '01' if to == '11' else '11')
        for k in range(o):
            ctx.eq(b[k], p[k], 'round trip order %d' % (k + 1))
            ctx.eq(p[k], p0[k], 'input unchanged')
        cc = u.ising_convert_params(tuple(p), to, concat=True)
        ctx.eq(cc, ctx.np.concatenate([x for x in q]), 'concat')
        if o == 2:
            hp, Jp = u.convert_params(p[0], p[1], to)
            ctx.eq(hp, q[0], 'agrees with the pairwise conversion')
            ctx.eq(Jp, q[1], 'agrees with the pairwise conversion')
    ctx.raises(lambda: u.ising_convert_params(tuple(p), '1'), Exception, 'invalid basis rejected')
