"""C02: generated Potts equations are the Boltzmann distribution of the Potts energy."""
import os
import shutil
import tempfile
from itertools import combinations, product
from vf.engine import Registry
from props.C01 import boltzmann, join_branches, load_text

R = Registry()
R.assumptions = ['the equation writer runs concretely (its inputs are finite); the program it writes is checked '
                 'symbolically']
P = 'coniii.enumerate_potts.'


@R.harness(encodes=[P + 'SpecificFieldGenericCouplings.write', P + 'SpecificFieldGenericCouplings.energy_terms_generator',
                    'coniii.utils.xpotts_states', 'coniii.enumerate.fast_logsumexp'],
           bound='(n spins, k states) in (3,2..6), (4,2..4), (3,11), (5,2), (6,2), (5,3); all real fields and couplings; all k^n states (with '
           'k^n >= 120 every (k^n // 60)-th probability) and all observables', budget=600,
           cases=[dict(n=n, k=k) for n, k in ((3, 2), (3, 3), (3, 4), (3, 5), (3, 6), (4, 2), (4, 3), (4, 4), (3, 11), (5, 2), (6, 2), (5, 3))],
           thorough=[dict(n=n, k=k) for n, k in ((7, 2), (6, 3), (5, 4), (3, 10), (3, 12))])
def generated(ctx, n, k):
    join_branches(ctx)
    ep = ctx.lib('enumerate_potts')
    d = tempfile.mkdtemp(prefix='vf_ep_')
    try:
        f = os.path.join(d, 'eq.py')
        ep.SpecificFieldGenericCouplings(n, k).write(f)
        text = open(f).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = load_text(ctx, text, 'vf_potts')
    pairs = list(combinations(range(n), 2))
    states = list(product(range(k), repeat=n))
    obs = [[int(s[i] == q) for q in range(k) for i in range(n)] + [int(s[i] == s[j]) for i, j in pairs] for s in states]
    params = ctx.reals('p', n * k + len(pairs))
    p0 = params.copy()
    Pr, C = boltzmann(ctx, list(params), obs)
    got = m.p(params)
    ctx.check(len(got) == len(states), 'one probability per state')
    step = max(1, len(states) // 60)
    for i in sorted(set(range(0, len(states), step)) | {len(states) - 1}):
        ctx.eq(got[i], Pr[i], 'probability of state %s' % (states[i],))
    got = m.calc_observables(params)
    ctx.check(len(got) == len(C), 'one value per observable')
    for i in range(len(C)):
        ctx.eq(got[i], C[i], 'observable %d' % i)
    ctx.eq(params, p0, 'input unchanged')
    ctx.raises(lambda: m.p(params[:-1]), Exception, 'wrong number of parameters rejected')
