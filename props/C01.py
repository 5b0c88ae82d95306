"""C01: the exact Ising equations (shipped and generated) are the Boltzmann distribution of the stated energy."""
import os
import shutil
import sys
import tempfile
import types
from itertools import combinations, product
import numpy as np
from vf.engine import Registry
from vf.lift import REPO

R = Registry()
R.assumptions = ['the equation writer itself runs concretely (its inputs are finite); the program it writes is checked '
                 'symbolically']
EN = 'coniii.enumerate.'


def writer(fn, *a, **k):
    """Runs the real equation writer of the current source in a scratch directory; returns the source written."""
    m = types.ModuleType('enumerate_writer')
    src = open(os.path.join(REPO, 'coniii', 'enumerate.py')).read()
    d = tempfile.mkdtemp(prefix='vf_eq_')
    old, out = os.getcwd(), sys.stdout
    po = np.get_printoptions()
    try:
        os.chdir(d)
        sys.stdout = open(os.devnull, 'w')
        m.__name__ = 'coniii.enumerate'
        m.__package__ = 'coniii'
        exec(compile(src, os.path.join(REPO, 'coniii', 'enumerate.py'), 'exec'), m.__dict__)
        getattr(m, fn)(*a, **k)
        fs = os.listdir('ising_eqn')
        assert len(fs) == 1, fs
        return open(os.path.join('ising_eqn', fs[0])).read()
    finally:
        sys.stdout = out
        os.chdir(old)
        np.set_printoptions(**{k: v for k, v in po.items() if k in ('threshold', 'linewidth', 'precision', 'edgeitems')})
        shutil.rmtree(d, ignore_errors=True)


def load_text(ctx, text, name='vf_generated'):
    if ctx.symbolic:
        return ctx.eng.lifter.exec_file('coniii.ising_eqn.' + name, name, src=text)
    import coniii.ising_eqn
    m = types.ModuleType('coniii.ising_eqn.' + name)
    m.__package__ = 'coniii.ising_eqn'
    exec(compile(text, name, 'exec'), m.__dict__)
    return m


def join_branches(ctx):
    """Functions of the enumerate module that branch on the sign of a sum are executed once with joined results."""
    if not ctx.symbolic:
        return
    e = ctx.lib('enumerate')
    for k, f in list(vars(e).items()):
        if 'logsumexp' in k and callable(f) and not hasattr(f, '_joined'):
            g = ctx.merged(f)
            g._joined = True
            setattr(e, k, g)


def boltzmann(ctx, params, obs):
    """obs: list of per-state lists of observable values (terms of -E = obs.params)."""
    X = [ctx.sum([v * c for v, c in zip(params, o) if c != 0]) for o in obs]
    M = ctx.max(X)
    w = [ctx.exp(x - M) for x in X]
    Z = ctx.sum(w)
    P = [x / Z for x in w]
    C = [ctx.sum([c * x for c, x in zip([o[k] for o in obs], w) if c != 0]) / Z for k in range(len(obs[0]))]
    return P, C


def observables(n, sym, terms):
    st = list(product((-1, 1) if sym else (0, 1), repeat=n))
    return [[int(np.prod([s[i] for i in t])) for t in terms] for s in st]


def run(ctx, m, n, sym, terms, hp=False):
    params = ctx.reals('p', len(terms))
    P, C = boltzmann(ctx, list(params), observables(n, sym, terms))
    if hp and not ctx.symbolic:         # validation run: the real code gets numbers of 50 digits and must keep them
        import mpmath
        mpmath.mp.dps = 50
        params = np.array([mpmath.mpf(float(v)) for v in params], dtype=object)
    p0 = params.copy()
    got = m.p(params)
    if hp and not ctx.symbolic:
        ctx.check(abs(sum(list(got)) - 1) < mpmath.mpf(10)**-40, 'high precision')
    ctx.check(len(got) == 2**n, 'one probability per state')
    for i in range(2**n):
        ctx.eq(got[i], P[i], 'probability of state %d' % i)
    got = m.calc_observables(params)
    ctx.check(len(got) == len(terms), 'one value per observable')
    for k, t in enumerate(terms):
        ctx.eq(got[k], C[k], 'expectation of %s' % (t,))
    ctx.eq(params, p0, 'input unchanged')


def terms_upto(n, order):
    return [t for o in range(1, order + 1) for t in combinations(range(n), o)]


@R.harness(encodes=['coniii.ising_eqn.ising_eqn_N[_sym]: calc_observables, p', EN + 'fast_logsumexp'],
           bound='shipped pairwise modules n = 2..9 (9 in both bases), all real parameters; all 2^n states and all '
           'observables', budget=400,
           cases=[dict(n=n, sym=s) for n in range(2, 9) for s in (0, 1)] + [dict(n=9, sym=s) for s in (0, 1)])
def shipped_pairwise(ctx, n, sym):
    join_branches(ctx)
    m = ctx.lib('ising_eqn.ising_eqn_%d%s' % (n, '_sym' if sym else ''))
    run(ctx, m, n, sym, terms_upto(n, 2))


@R.harness(encodes=['coniii.ising_eqn.ising_eqn_5[_sym]_triplet: calc_observables, p', EN + 'fast_logsumexp'],
           bound='shipped triplet modules n = 5', cases=[dict(sym=s) for s in (0, 1)])
def shipped_triplet(ctx, sym):
    join_branches(ctx)
    m = ctx.lib('ising_eqn.ising_eqn_5%s_triplet' % ('_sym' if sym else ''))
    run(ctx, m, 5, sym, terms_upto(5, 3))


@R.harness(encodes=[EN + f for f in ('write_eqns', 'write_py', '_write_energy_terms', '_compute_signs', 'get_terms11',
                                     'get_terms01', 'pairwise', 'fast_logsumexp', 'mp_fast_logsumexp')],
           bound='freshly generated pairwise equations n = 2..6 (thorough 8, 10), float and high-precision variants',
           budget=500,
           cases=[dict(n=n, sym=s, hp=h) for n in (2, 3, 4, 5) for s in (0, 1) for h in (False, True)] + [
               dict(n=6, sym=s, hp=False) for s in (0, 1)],
           thorough=[dict(n=n, sym=s, hp=False) for n in (7, 8, 10) for s in (0, 1)])
def generated_pairwise(ctx, n, sym, hp):
    join_branches(ctx)
    m = load_text(ctx, writer('pairwise', n, sym, high_prec=hp))
    run(ctx, m, n, sym, terms_upto(n, 2), hp)


@R.harness(encodes=[EN + f for f in ('write_eqns', 'write_py', 'triplet', 'get_terms11', 'get_terms01')],
           bound='freshly generated triplet equations n = 3..5 (thorough 6)', budget=500,
           cases=[dict(n=n, sym=s) for n in (3, 4, 5) for s in (0, 1)], thorough=[dict(n=6, sym=s) for s in (0, 1)])
def generated_triplet(ctx, n, sym):
    join_branches(ctx)
    m = load_text(ctx, writer('triplet', n, sym))
    run(ctx, m, n, sym, terms_upto(n, 3))


@R.harness(encodes=[EN + 'write_eqns'], bound='generated equations with a chosen subset of interactions (n = 4), and '
           'with 4th-order terms (n = 4)', cases=[dict(sym=s, kind=k) for s in (0, 1) for k in ('subset', 'four')])
def generated_custom(ctx, sym, kind):
    join_branches(ctx)
    n = 4
    if kind == 'subset':
        pairs = [(0, 1), (1, 3), (2, 3)]
        terms = [(i,) for i in range(n)] + pairs
        ix = [(np.arange(n),), tuple(np.array(x) for x in zip(*pairs))]
    else:
        terms = terms_upto(n, 4)
        ix = [tuple(np.array(x) for x in zip(*combinations(range(n), o))) for o in (1, 2, 3, 4)]
    m = load_text(ctx, writer('write_eqns', n, sym, ix))
    run(ctx, m, n, sym, terms)


@R.harness(encodes=[EN + 'fast_logsumexp', EN + 'mp_fast_logsumexp'], bound='vectors of 1..4 arbitrary reals, arbitrary '
           'real coefficients, or coefficients -1, 0, 1, with non-zero total',
           cases=[dict(n=n, hp=h, co=c) for n in (1, 2, 3) for h in (False, True) for c in (False, True, 'signs')],
           thorough=[dict(n=4, hp=h, co=True) for h in (False, True)])
def logsumexp(ctx, n, hp, co):
    """sign * exp(value) is the weighted sum, and no exponential is taken of a positive number."""
    e = ctx.lib('enumerate')
    f = e.mp_fast_logsumexp if hp else e.fast_logsumexp
    X = ctx.reals('x', n)
    c = ctx.ints('c', n, (-1, 0, 1)) if co == 'signs' else ctx.reals('c', n) if co else None
    if co == 'signs':
        c = ctx.np.array([int(v) for v in c])
    M = ctx.max(list(X))
    w = ctx.sum([(c[i] if co else 1) * ctx.exp(X[i] - M) for i in range(n)])
    if ctx.branch(ctx.eq_(w, 0)):
        return ctx.check(True, 'zero total is out of scope')
    (v, s), args = ctx.exps_during(lambda: f(X, c) if co else f(X))
    for a in args:
        ctx.le(a, 0, 'exponents are not positive')
    if ctx.branch(ctx.lt_(w, 0)):
        ctx.eq(s, -1, 'negative total')
    else:
        ctx.eq(s, 1, 'positive total')
    ctx.eq(s * ctx.exp(v - M), w, 'value')
    if not ctx.symbolic and float(w * w) > 1e-20 * float(sum(abs(c[i] if co else 1) * np.exp(X[i] - M) for i in range(n)))**2:
        ctx.eq(float(v - M), float(np.log(abs(w))), 'logarithm of the magnitude')
