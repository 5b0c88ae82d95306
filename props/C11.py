"""C11: one Metropolis step obeys the acceptance rule and its bookkeeping (Python samplers)."""
from itertools import product
from vf.engine import Registry

R = Registry()
S = 'coniii.samplers.'


def energy_table(ctx, n, vals, name='e'):
    """An arbitrary energy function: one free real per state."""
    st = list(product(vals, repeat=n))
    tab = ctx.reals(name, len(st))

    def lookup(x):
        e = tab[len(st) - 1]
        for k in range(len(st) - 1):
            e = ctx.ite(ctx.and_(*[ctx.eq_(a, b) for a, b in zip(x, st[k])]), tab[k], e)
        return e
    return tab, lookup


def as_calc_e(ctx, lookup, seen):
    def calc_e(states, theta):
        seen.append(theta)
        r = ctx.np.zeros(len(states))
        for i in range(len(states)):
            r[i] = lookup(list(states[i]))
        return r
    return calc_e


def go(ctx, which, n, vals, site, own_rng, other_e):
    sm = ctx.lib('samplers')
    tab, lookup = energy_table(ctx, n, vals)
    seen = []
    th = ctx.reals('theta', 3 * n + n * (n - 1) // 2)
    calc_e = as_calc_e(ctx, lookup, seen)
    wrong = as_calc_e(ctx, lambda x: tab[0] + 1, [])
    s = getattr(sm, which)(n, th, calc_e=wrong if other_e else calc_e, rng=ctx.rng(), boost=False)
    x = ctx.ints('s', n, vals)
    x0 = list(x)
    E0 = calc_e(x[None, :], th)
    kw = {}
    if site is not None:
        kw['flip_site'] = site
    if own_rng:
        kw['rng'] = ctx.rng()
    if other_e:
        kw['calc_e'] = calc_e
    n0 = len(ctx.draws)
    de = s.sample_metropolis(x, E0, **kw)
    draws = ctx.draws[n0:]
    us = [d[1] for d in draws if d[0] == 'u']
    ints = [d for d in draws if d[0] == 'i']
    ctx.check(len(us) <= 1, 'one uniform draw at most')
    k = site
    if site is None:
        ctx.check(len(ints) >= 1, 'site drawn at random')
        _, k, lo, hi = ints.pop(0)
        ctx.check((lo, hi) == (0, n), 'every site can be drawn')
        k = k.__index__()
    if which == 'Potts3':
        ctx.check(len(ints) == 1, 'one draw for the proposed state')
        ctx.check(ints[0][3] - ints[0][2] == 2, 'two equally likely proposals')
        prop = (x0[k] + ints[0][1]) % 3
        ctx.check(ctx.not_(ctx.eq_(prop, x0[k])), 'proposal differs from the current state')
    else:
        ctx.check(len(ints) == 0, 'no other integer draws')
        prop = -x0[k]
    new = x0[:k] + [prop] + x0[k + 1:]
    dE = lookup(new) - lookup(x0)
    if us:
        p = ctx.exp(-dE)
        ctx.assume(ctx.not_(ctx.eq_(us[0], p)))
        acc = ctx.or_(ctx.le_(dE, 0), ctx.lt_(us[0], p))
    else:
        ctx.le(dE, 0, 'accepted without a draw only if the energy does not rise')
        acc = True
    for i in range(n):
        ctx.eq(x[i], ctx.ite(acc, new[i], x0[i]), 'spin %d after the step' % i)
    de = de if not hasattr(de, 'shape') or de.shape == () else de.reshape(-1)[0]
    ctx.eq(de, ctx.ite(acc, dE, 0), 'returned energy change')
    ctx.eq(calc_e(x[None, :], th)[0] - E0[0], de, 'change matches the new state')
    for t in seen:
        ctx.eq(t, th, 'parameters passed to the energy')


@R.harness(encodes=[S + 'Metropolis.sample_metropolis', S + 'Metropolis.__init__'],
           bound='n = 2 (thorough 3) spins, an arbitrary energy function (one free real per state), every state, every '
           'site and every uniform draw', cases=[dict(n=2, site=k, own_rng=o, other_e=e) for k in (None, 0, 1)
                                                for o, e in ((False, False), (True, True))],
           thorough=[dict(n=3, site=k, own_rng=False, other_e=False) for k in (None, 2)])
def ising(ctx, n, site, own_rng, other_e):
    go(ctx, 'Metropolis', n, (-1, 1), site, own_rng, other_e)


@R.harness(encodes=[S + 'Potts3.sample_metropolis', S + 'Potts3.__init__'],
           bound='n = 2 (thorough 3) spins, an arbitrary energy function, every state, site, proposal and uniform draw',
           cases=[dict(n=2, site=k, own_rng=o, other_e=e) for k in (None, 0, 1)
                  for o, e in ((False, False), (True, True))],
           thorough=[dict(n=3, site=2, own_rng=False, other_e=False)])
def potts3(ctx, n, site, own_rng, other_e):
    go(ctx, 'Potts3', n, (0, 1, 2), site, own_rng, other_e)


@R.harness(encodes=[S + '_jit_sample_metropolis'], bound='n = 3 spins, all real fields and symmetric couplings without '
           'self-coupling, every state and site, every uniform draw', cases=[dict(k=0), dict(k=2)])
def jit_step(ctx, k):
    n = 3
    sm = ctx.lib('samplers')
    h, J = ctx.reals('h', n), ctx.np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            J[i, j] = J[j, i] = ctx.real('J[%d,%d]' % (i, j))
    x = ctx.ints('s', n, (-1, 1))
    x0 = list(x)

    def en(s):
        return -ctx.sum([h[i] * s[i] for i in range(n)] + [J[i, j] * s[i] * s[j] for i in range(n) for j in range(i)])
    de = sm._jit_sample_metropolis(x, h, J, k, ctx.rng())
    us = ctx.drawn('u')
    new = x0[:k] + [-x0[k]] + x0[k + 1:]
    dE = en(new) - en(x0)
    if us:
        p = ctx.exp(-dE)
        ctx.assume(ctx.not_(ctx.eq_(us[0], p)))
        acc = ctx.or_(ctx.le_(dE, 0), ctx.lt_(us[0], p))
    else:
        ctx.le(dE, 0, 'accepted without a draw only if the energy does not rise')
        acc = True
    for i in range(n):
        ctx.eq(x[i], ctx.ite(acc, new[i], x0[i]), 'spin %d after the step' % i)
    ctx.eq(de, ctx.ite(acc, dE, 0), 'returned energy change')
