"""C12: the Python samplers record the chain they claim to run."""
from itertools import product
import types
from vf.engine import Registry
from vf.lift import SerialPool
from props.C11 import energy_table, as_calc_e

R = Registry()
S = 'coniii.samplers.'
ISING, POTTS = (-1, 1), (0, 1, 2)


class Chain:
    """Reference chain consuming the recorded draws in order."""

    def __init__(self, ctx, lookup, vals, state, draws, free=None):
        self.ctx, self.lookup, self.vals, self.s, self.draws = ctx, lookup, vals, list(state), list(draws)
        self.free = list(range(len(state))) if free is None else free
        self.e = lookup(self.s)

    def next(self, kind):
        self.ctx.check(bool(self.draws), 'the sampler makes every step of the chain')
        d = self.draws.pop(0)
        self.ctx.check(d[0] == kind, 'kind of random draw')
        return d

    def step(self, site=None):
        ctx = self.ctx
        if site is None:
            d = self.next('i')
            ctx.check((d[2], d[3]) == (0, len(self.free)), 'every site can be drawn')
            site = d[1].__index__()
        k = self.free[site % len(self.free)]
        if self.vals == ISING:
            new = -self.s[k]
        else:
            new = (self.s[k] + self.next('i')[1]) % 3
        n = self.s[:k] + [new] + self.s[k + 1:]
        en = self.lookup(n)
        de = en - self.e
        if ctx.branch(ctx.lt_(0, de)):
            u = self.next('u')[1]
            if ctx.branch(ctx.lt_(ctx.exp(-de), u)):
                return
        self.s, self.e = n, en


def mp_stub(n_cpus):
    m = types.SimpleNamespace(Pool=SerialPool, cpu_count=lambda: n_cpus)
    return m




def setup(ctx, which, n, vals, flat, cpus=2):
    sm = ctx.lib('samplers')
    ctx.script_random(sm)
    if flat:
        # energies falling with every flip are impossible, so keep all states equally likely: no rejection
        e = ctx.real('e')
        lookup = lambda x: e
    else:
        tab, lookup = energy_table(ctx, n, vals)
    th = ctx.reals('theta', 3 * n + n * (n - 1) // 2)
    calc_e = as_calc_e(ctx, lookup, [])
    kw = {'n_cpus': cpus} if which == 'Potts3' else {}
    s = getattr(sm, which)(n, th, calc_e=calc_e, rng=ctx.rng(), boost=False, **kw)
    ctx.patch(sm, 'mp', mp_stub(cpus))
    return sm, s, lookup, calc_e, th


def init_state(ctx, n, vals, draws):
    out = []
    for _ in range(n):
        d = draws.pop(0)
        ctx.check(d[0] in ('c', 'i'), 'random initial state')
        out.append(d[1])
    return out


@R.harness(encodes=[S + 'Metropolis.generate_sample_py', S + 'Metropolis.sample_metropolis', S + 'Potts3.sample_metropolis',
                    S + 'Metropolis.random_sample', S + 'Potts3.random_sample'], max_paths=20000, budget=400,
           bound='n = 2..3 spins (with a constant energy 7..11); burn_in 0..5, n_iters 1..7, 1..4 samples: with an arbitrary energy function and all '
           'accept/reject histories up to 3 steps, with a constant energy up to 40 steps',
           cases=[dict(which=w, n=n, B=B, N=N, S=S_, sysm=sy, hist=h, init=i, flat=f)
                  for w, n, B, N, S_, sy, h, i, f in (
                      ('Metropolis', 2, 1, 1, 2, True, False, True, False),
                      ('Metropolis', 2, 1, 1, 1, False, False, False, False),
                      ('Metropolis', 2, None, 1, 2, True, True, False, False),
                      ('Metropolis', 2, 1, 1, 1, False, True, True, False),
                      ('Metropolis', 2, 0, 2, 1, True, False, False, False),
                      ('Metropolis', 3, 2, 2, 3, True, False, True, True),
                      ('Metropolis', 3, None, 2, 3, True, True, False, True),
                      ('Metropolis', 2, 1, 2, 2, False, False, False, True),
                      ('Metropolis', 2, 0, 2, 1, False, True, False, False),
                      ('Metropolis', 2, 0, 2, 2, True, False, True, False),
                      ('Potts3', 2, 1, 1, 1, True, False, True, False),
                      ('Potts3', 2, 0, 1, 1, False, False, False, False),
                      ('Potts3', 3, 1, 2, 2, True, True, False, True),
                      ('Metropolis', 11, 5, 7, 4, True, True, True, True), ('Metropolis', 10, 0, 1, 2, False, False, False, True),
                      ('Potts3', 7, 1, 1, 2, True, False, True, True), ('Metropolis', 2, 0, 1, 40, True, True, False, True))],
           thorough=[dict(which='Metropolis', n=2, B=1, N=2, S=2, sysm=True, hist=True, init=True, flat=False)])
def sequential(ctx, which, n, B, N, S, sysm, hist, init, flat):
    vals = POTTS if which == 'Potts3' else ISING
    sm, s, lookup, calc_e, th = setup(ctx, which, n, vals, flat)
    kw = {}
    if init:
        x = ctx.ints('s', (1, n), vals)
        x0 = x.copy()
        kw['initial_sample'] = x
    if hist:
        kw['saveHistory'] = True
    n0 = len(ctx.draws)
    h = s.generate_sample(S, n_iters=N, burn_in=B, systematic_iter=sysm, **kw)
    draws = ctx.draws[n0:]
    start = list(x0[0]) if init else init_state(ctx, n, vals, draws)
    ch = Chain(ctx, lookup, vals, start, draws)
    B = N if B is None else B
    t = 0
    for _ in range(B):
        ch.step(t if sysm else None)
        t += 1
    ctx.check(tuple(s.sample.shape) == (S, n), 'shape of the sample')
    if hist:
        ctx.check(len(h) == S * N, 'one energy per step in the history')
    for r in range(S):
        for j in range(N):
            ch.step(t if sysm else None)
            t += 1
            if hist:
                ctx.eq(h[r * N + j], ch.e, 'energy history')
        for i in range(n):
            ctx.eq(s.sample[r, i], ch.s[i], 'sample %d is the state of the chain' % r)
        ctx.eq(s.E[r], ch.e, 'energy of sample %d' % r)
    ctx.check(not ch.draws, 'no further steps')
    if init:
        ctx.eq(x, x0, 'initial sample unchanged')


@R.harness(encodes=[S + 'Metropolis.generate_sample_parallel_py'], max_paths=20000, budget=400,
           bound='n = 2 spins, 2 workers (run one after the other), up to 2 steps per worker, 1..4 samples; with a constant energy '
           'up to 9 spins, 4 workers and 7 samples',
           cases=[dict(n=9, W=3, which='Metropolis', B=4, N=3, S=7, sysm=True, init=True, flat=True),
                  dict(n=3, W=4, which='Metropolis', B=1, N=2, S=2, sysm=True, init=False, flat=True),
                  dict(n=3, W=3, which='Potts3', B=0, N=1, S=3, sysm=True, init=False, flat=True),
                  dict(n=2, W=1, which='Metropolis', B=1, N=2, S=3, sysm=True, init=True, flat=True)] + [dict(which=w, B=B, N=N, S=S_, sysm=sy, init=i, flat=f) for w, B, N, S_, sy, i, f in (
               ('Metropolis', 1, 1, 2, True, True, False), ('Metropolis', 0, 1, 1, False, False, False),
               ('Metropolis', 2, 3, 3, True, True, True), ('Metropolis', None, 3, 4, True, False, True),
               ('Potts3', 0, 1, 2, True, True, False), ('Metropolis', 1, 1, 3, False, False, True))])
def parallel(ctx, which, B, N, S, sysm, init, flat, n=2, W=2):
    vals = POTTS if which == 'Potts3' else ISING
    sm, s, lookup, calc_e, th = setup(ctx, which, n, vals, flat, W)
    kw = {}
    if init:
        x = ctx.ints('s', (W, n), vals)
        x0 = x.copy()
        kw['initial_sample'] = x
    n0, k0 = len(ctx.draws), len(ctx.seeds)
    s.generate_sample_parallel(S, n_iters=N, burn_in=B, systematic_iter=sysm, **kw)
    draws = ctx.draws[n0:]
    starts = [list(y) for y in x0] if init else [init_state(ctx, n, vals, draws) for _ in range(W)]
    seeds = [d[1] for d in draws if d[0] == 'seed']
    draws = [d for d in draws if d[0] != 'seed']
    ctx.check(len(seeds) == W and len(ctx.seeds) == k0 + W, 'each worker has its own generator')
    for a, b in zip(seeds, ctx.seeds[k0:]):
        ctx.eq(a, b, 'worker seeded from the sampler generator')
    B = N if B is None else B
    per = -(-S // W)
    rows, last = [], []
    for w in range(W):
        ch = Chain(ctx, lookup, vals, starts[w], draws)
        t = 0
        for _ in range(B):
            ch.step(t if sysm else None)
            t += 1
        for r in range(per):
            for j in range(N):
                ch.step(t if sysm else None)
                t += 1
            rows.append(list(ch.s))
        last.append((list(ch.s), ch.e))
        draws = ch.draws
    ctx.check(not draws, 'no further steps')
    ctx.check(tuple(s.sample.shape) == (S, n), 'shape of the sample')
    for r in range(S):
        for i in range(n):
            ctx.eq(s.sample[r, i], rows[r][i], 'sample %d is a state of its chain' % r)
    for w in range(W):
        for i in range(n):
            ctx.eq(s._samples[w, i], last[w][0][i], 'replica state kept')
    if init:
        ctx.eq(x, x0, 'initial sample unchanged')


@R.harness(encodes=[S + 'Metropolis.update_parameters'], bound='2, 3 spins, all old and new parameters',
           cases=[dict(which=w, n=n) for w in ('Metropolis', 'Potts3') for n in (2, 3)])
def update(ctx, which, n):
    """After an update, a step uses exactly the new parameters."""
    vals = POTTS if which == 'Potts3' else ISING
    sm = ctx.lib('samplers')
    k = n + n * (n - 1) // 2 if which == 'Metropolis' else 3 * n + n * (n - 1) // 2
    th, new = ctx.reals('theta', k), ctx.reals('new', k)
    if not ctx.symbolic:
        new = th + new * 1e-7           # also the smallest change counts
    used = []

    def calc_e(s, t):
        used.append(t.copy())
        return ctx.np.zeros(len(s))
    kw = {'n_cpus': 2} if which == 'Potts3' else {}
    s = getattr(sm, which)(n, th.copy(), calc_e=calc_e, rng=ctx.rng(), boost=False, **kw)
    s.update_parameters(new.copy())
    s.generate_sample(1, n_iters=1, burn_in=0)
    ctx.check(len(used) > 0, 'energies calculated')
    for t in used:
        for a, b in zip(t, new):
            if ctx.symbolic:
                ctx.eq(a, b, 'new parameters used')
            else:
                ctx.check(a == b, 'new parameters used')


@R.harness(encodes=[S + 'Metropolis.generate_cond_sample_py'], max_paths=20000, budget=400,
           bound='n = 2..4 spins with 1..3 of them held fixed at either value, up to 3 free steps (12 at constant energy)',
           cases=[dict(n=n, fixed=f, B=B, N=N, S=S_, sysm=sy, init=i, flat=fl) for n, f, B, N, S_, sy, i, fl in (
               (2, (0,), 1, 1, 2, True, False, False), (2, (1,), 0, 1, 2, False, False, False),
               (3, (1,), 0, 1, 1, True, True, False), (3, (0, 2), 1, 1, 2, True, False, False),
               (4, (1, 2), 2, 3, 3, True, False, True), (4, (0, 3), 1, 1, 2, False, True, True),
               (4, (2,), 0, 1, 3, True, False, True), (4, (0, 1, 3), 1, 1, 2, True, False, True),
               (3, (2,), 1, 3, 2, True, False, True))])
def conditional(ctx, n, fixed, B, N, S, sysm, init, flat):
    sm, s, lookup, calc_e, th = setup(ctx, 'Metropolis', n, ISING, flat)
    fx = [(i, ctx.int('fix%d' % i, ISING)) for i in fixed]
    free = [i for i in range(n) if i not in fixed]
    kw = {}
    if init:
        x = ctx.ints('s', (S, len(free)), ISING)
        x0 = x.copy()
        kw['initial_sample'] = x
    n0 = len(ctx.draws)
    s.generate_cond_sample(S, list(fx), burn_in=B, n_iters=N, systematic_iter=sysm, **kw)
    draws = ctx.draws[n0:]
    if not init:
        draws = draws[S * len(free):]
    st = init_state(ctx, len(free), ISING, draws)
    full = [None] * n
    for i, v in fx:
        full[i] = v
    for i, v in zip(free, st):
        full[i] = v
    ch = Chain(ctx, lookup, ISING, full, draws, free)
    t = 0
    for _ in range(B):
        ch.step(t if sysm else None)
        t += 1
    ctx.check(tuple(s.sample.shape) == (S, n), 'shape of the sample')
    for r in range(S):
        for j in range(N):
            ch.step(t if sysm else None)
            t += 1
        for i, v in fx:
            ctx.eq(s.sample[r, i], v, 'fixed spin %d' % i)
        for i in range(n):
            ctx.eq(s.sample[r, i], ch.s[i], 'sample %d is the state of the chain' % r)
        ctx.eq(s.E[r], ch.e, 'energy of sample %d' % r)
    ctx.check(not ch.draws, 'no further steps')
    if init:
        ctx.eq(x, x0, 'initial sample unchanged')


class Recorder:
    """Stands in for the C++ sampler objects: records the calls and returns marked samples."""
    log = []
    ctx = None

    def __init__(self, n, theta, seed):
        self.r = {'n': n, 'theta': theta, 'seed': seed, 'calls': []}
        self.k = len(Recorder.log)
        Recorder.log.append(self.r)

    def generate_sample(self, S, B, N, sysm):
        self.S = S
        self.r['calls'].append(('sample', S, B, N, sysm))

    def generate_cond_sample(self, ix, vals, S, B, N, sysm):
        self.S = S
        self.r['calls'].append(('cond', S, B, N, sysm))
        self.r['fixed'] = (ix, vals)

    def fetch_sample(self):
        c = Recorder.ctx
        out = c.np.zeros((self.S, self.r['n']), dtype=int)
        for i in range(self.S):
            for j in range(self.r['n']):
                out[i, j] = c.integer('out%d[%d,%d]' % (self.k, i, j), 0, 2)
        self.r.setdefault('out', []).append(out)
        return out.copy()


@R.harness(encodes=[S + f for f in ('Metropolis.generate_sample_boost', 'Metropolis.generate_sample_parallel_boost',
                                    'Metropolis.generate_cond_sample_boost', 'Potts3.generate_sample_boost',
                                    'Potts3.generate_sample_parallel_boost')],
           bound='n = 3 spins, float, integer and strided parameter vectors, 2 workers, up to 5 samples; the C++ object is '
           'replaced by a recorder',
           cases=[dict(which=w, kind=k, how=h, theta=t) for w, k, h, t in (
               ('Metropolis', 'sample', 'serial', 'float'), ('Metropolis', 'sample', 'serial', 'int'),
               ('Metropolis', 'sample', 'serial', 'strided'), ('Metropolis', 'sample', 'parallel', 'int'),
               ('Metropolis', 'cond', 'serial', 'int'), ('Metropolis', 'cond', 'parallel', 'strided'),
               ('Potts3', 'sample', 'serial', 'float'), ('Potts3', 'sample', 'serial', 'int'),
               ('Potts3', 'sample', 'parallel', 'strided'))])
def compiled_wrapper(ctx, which, kind, how, theta):
    n, S, B, N = 3, 5, 7, 4
    sm = ctx.lib('samplers')
    ctx.script_random(sm)
    Recorder.log, Recorder.ctx = [], ctx
    ctx.patch(sm, 'BoostIsing', Recorder if which == 'Metropolis' else None)
    ctx.patch(sm, 'BoostPotts3', Recorder if which == 'Potts3' else None)
    ctx.patch(sm, 'IMPORTED_SAMPLERS_EXT', True)
    ctx.patch(sm, 'mp', mp_stub(2))
    m = 6 if which == 'Metropolis' else 12
    if theta == 'strided':
        th = ctx.reals('theta', 2 * m)[::2]
    else:
        th = ctx.reals('theta', m) if theta == 'float' else ctx.ints('theta', m, (-1, 0, 1, 2))
    kw = {'n_cpus': 2} if which == 'Potts3' else {'iprint': False}
    s = getattr(sm, which)(n, th, rng=ctx.rng(), **kw)
    Recorder.log = []
    nd = len(ctx.draws)
    ix = vals = None
    if kind == 'cond':
        vals = [ctx.int('v0', ISING), ctx.int('v2', ISING)]
        s.generate_cond_sample(S, [(0, vals[0]), (2, vals[1])], burn_in=B, n_iters=N, systematic_iter=True,
                               parallel=how == 'parallel')
    elif how == 'serial':
        s.generate_sample(S, n_iters=N, burn_in=B, systematic_iter=True)
    else:
        s.generate_sample_parallel(S, n_iters=N, burn_in=B, systematic_iter=True)
    seeds = [d[1] for d in ctx.draws[nd:] if d[0] == 'seed']
    W = 1 if how == 'serial' else 2
    per = S if how == 'serial' else -(-S // 2)
    ctx.check(len(Recorder.log) == W and len(seeds) == W, 'one sampler and one seed per worker')
    rows = []
    for r, sd in zip(Recorder.log, seeds):
        ctx.check(r['n'] == n, 'system size')
        ctx.eq(r['seed'], sd, 'seed from the sampler generator')
        t = r['theta']
        ctx.check(bool(t.flags['C_CONTIGUOUS']) and (t.dtype == float if not ctx.symbolic else t.ld == 'f'),
                  'parameters given as contiguous doubles')
        ctx.eq(t, th, 'parameters')
        ctx.check(r['calls'] == [(kind, per, B, N, True)], 'sampling arguments %s' % (r['calls'],))
        if kind == 'cond':
            ctx.eq(r['fixed'][0], ctx.array([0, 2]), 'fixed indices')
            ctx.eq(r['fixed'][1], ctx.array(vals) if not ctx.symbolic else ctx.np.array(vals), 'fixed values')
        rows += list(r['out'][0])
    ctx.check(tuple(s.sample.shape) == (S, n), 'shape of the sample')
    for i in range(S):
        ctx.eq(s.sample[i], rows[i], 'sample %d' % i)


@R.harness(encodes=[S + f for f in ('Metropolis.generate_sample_boost', 'Metropolis.generate_sample_parallel_boost',
                                    'Metropolis.generate_cond_sample_boost', 'Potts3.generate_sample_boost',
                                    'Potts3.generate_sample_parallel_boost')],
           bound='3 spins, calls without options', cases=[dict(which=w, kind=k) for w, k in (
               ('Metropolis', 'serial'), ('Metropolis', 'parallel'), ('Metropolis', 'cond'), ('Potts3', 'serial'), ('Potts3', 'parallel'))])
def documented_defaults(ctx, which, kind):
    """1000 iterations between samples, as many for the burn-in, spins chosen at random."""
    sm = ctx.lib('samplers')
    ctx.script_random(sm)
    Recorder.log, Recorder.ctx = [], ctx
    ctx.patch(sm, 'BoostIsing', Recorder)
    ctx.patch(sm, 'BoostPotts3', Recorder)
    ctx.patch(sm, 'IMPORTED_SAMPLERS_EXT', True)
    ctx.patch(sm, 'mp', mp_stub(2))
    th = ctx.reals('theta', 6 if which == 'Metropolis' else 12)
    s = getattr(sm, which)(3, th, rng=ctx.rng(), **({'n_cpus': 2} if which == 'Potts3' else {'iprint': False}))
    Recorder.log = []
    if kind == 'serial':
        s.generate_sample(2)
    elif kind == 'parallel':
        s.generate_sample_parallel(4)
    else:
        s.generate_cond_sample(4, [(0, 1)])
    for r in Recorder.log:
        ctx.check(r['calls'] == [('cond' if kind == 'cond' else 'sample', 2, 1000, 1000, False)], 'defaults %s' % (r['calls'],))
    ctx.check(len(Recorder.log) == (1 if kind == 'serial' else 2), 'one sampler per worker')
