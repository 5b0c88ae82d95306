"""C23: the adaptive cluster expansion sums exactly the clusters above the threshold."""
from itertools import combinations, product
from vf.engine import Registry

R = Registry()
V = 'coniii.solvers.ClusterExpansion.'
M = 'coniii.mean_field_ising.'


def subsets(c):
    return [v for k in range(1, len(c) + 1) for v in combinations(c, k)]


def embed(ctx, n, c, name):
    """An arbitrary symmetric matrix over the whole system that is zero outside the cluster."""
    J = ctx.np.zeros((n, n))
    v = iter(ctx.reals(name, len(c) * (len(c) + 1) // 2))
    for a, i in enumerate(c):
        for j in c[a:]:
            J[i, j] = next(v)
            J[j, i] = J[i, j]
    return J


class Entropies:
    """Stand-in for the entropy functions of the solver: arbitrary results for every cluster."""

    def __init__(self, ctx, n, name, cooc, names=('deltaJdict', 'useAnalyticResults', 'priorLmbda', 'numSamples'), **want):
        self.names = names
        self.ctx, self.n, self.name, self.cooc, self.want, self.known, self.count = ctx, n, name, cooc, want, {}, {}
        self.seen = []

    def get(self, c):
        c = tuple(sorted(int(i) for i in c))
        if c not in self.known:
            nm = self.name + '_'.join(map(str, c)) + '_'
            self.known[c] = self.ctx.real(nm), embed(self.ctx, self.n, c, nm + 'J')
        return self.known[c]

    def __call__(self, cluster, coocMat, *a, **k):
        c = [int(i) for i in cluster]
        self.ctx.check(len(set(c)) == len(c), 'cluster of different spins')
        if not any(x is coocMat for x in self.seen):
            self.seen.append(coocMat)
            for i in range(self.n):
                for j in range(i, self.n):
                    self.ctx.eq(coocMat[i, j], self.cooc[i][j], 'cooccurrences given on')
        c = tuple(sorted(c))
        self.count[c] = self.count.get(c, 0) + 1
        given = dict(zip(self.names, a))
        given.update(k)
        for x, y in self.want.items():
            self.ctx.check(given.get(x, None if x == 'numSamples' else 0.) == y, 'option %s' % x)
        e, J = self.get(c)
        return e, J.copy()


def expected(ctx, n, X):
    S = len(X)
    return [[ctx.sum([(X[r, i] + 1) * (X[r, j] + 1) for r in range(S)]) / (4 * S) if j >= i else 0
             for j in range(n)] for i in range(n)]


def solver(ctx, X, **kw):
    sv = ctx.lib('solvers')
    return sv, sv.ClusterExpansion(X, iprint=False, sample_size=1000, **kw)


def energies_match(ctx, m, J, n, label):
    """m in the {-1,1} basis describes the distribution exp(-h.f - f.J.f) over {0,1} states."""
    c = None
    for f in product((0, 1), repeat=n):
        s = [2 * x - 1 for x in f]
        d = ctx.sum([m[i] * s[i] for i in range(n)] + [m[n + k] * s[i] * s[j]
                                                        for k, (i, j) in enumerate(combinations(range(n), 2))] +
                    [J[i, j] for i in range(n) for j in range(n) if f[i] and f[j]])
        if c is None:
            c = d
        ctx.eq(d, c, label + ' %s' % (f,))


def delta(ctx, n, c, S, S0):
    """Inclusion-exclusion over the subsets of c."""
    e, J = 0, ctx.np.zeros((n, n))
    for v in subsets(c):
        sg = (-1) ** (len(c) - len(v))
        e = e + sg * (S.get(v)[0] - S0.get(v)[0])
        J = J + sg * (S.get(v)[1] - S0.get(v)[1])
    return e, J


def kept_clusters(ctx, n, cluster, got, T, S, S0):
    """Checks the selection rule against the clusters returned; returns those kept."""
    size, now, out = 1, [(i,) for i in cluster], [(i,) for i in cluster]
    ctx.check(sorted(tuple(int(x) for x in c) for c in got[1]) == sorted(now), 'singletons')
    while now:
        cand = sorted(set(tuple(sorted(set(a) | set(b))) for a, b in combinations(now, 2)
                          if len(set(a) & set(b)) == size - 1))
        have = [tuple(int(x) for x in c) for c in got.get(size + 1, [])]
        ctx.check(len(set(have)) == len(have), 'every cluster once')
        ctx.check(set(have) <= set(cand), 'clusters are unions of two kept clusters')
        nxt = []
        for c in cand:
            e = delta(ctx, n, c, S, S0)[0]
            big = ctx.or_(ctx.lt_(T, e), ctx.lt_(e, -T))
            ctx.check(big if c in have else ctx.not_(big), 'cluster %s %s' % (c, 'kept' if c in have else 'dropped'))
            if c in have:
                nxt.append(c)
        now = nxt
        out += nxt
        size += 1
    return out


@R.harness(encodes=[V + 'solve', V + 'deltaS', V + 'subsets', V + 'clusterID', V + '__init__', M + 'cooccurrence_matrix',
                    'coniii.utils.convert_params', 'coniii.utils.zero_diag'],
           bound='n = 2, 3 spins (thorough 4, every selection of clusters); every data set of 2 samples, every entropy and coupling matrix of every '
           'cluster, every threshold; independent and mean-field reference; any order and subset of spins',
           max_paths=60000, budget=700, tol=1e-5,
           cases=[dict(n=2, ref='independent', cl=None), dict(n=3, ref='independent', cl=None),
                  dict(n=3, ref='meanfield', cl=None), dict(n=3, ref='meanfield', cl=None, mfp=5), dict(n=3, ref='independent', cl=(0, 2)),
                  dict(n=3, ref='independent', cl=(2, 0, 1))],
           thorough=[dict(n=4, ref='independent', cl=(0, 2, 3)), dict(n=4, ref='meanfield', cl=(3, 1, 0))])
def expansion(ctx, n, ref, cl, mfp=None):
    X = ctx.ints('s', (2, n), (-1, 1))
    cooc = expected(ctx, n, X)
    mf = ref == 'meanfield'
    sv, s = solver(ctx, X)
    S = Entropies(ctx, n, 'S', cooc, priorLmbda=3, numSamples=7)
    S0 = Entropies(ctx, n, 'R', cooc)
    s.S = S
    if mf:
        S0 = Entropies(ctx, n, 'R', cooc, names=('meanFieldPriorLmbda', 'numSamples'), meanFieldPriorLmbda=mfp or 3, numSamples=7)
        ctx.patch(ctx.lib('mean_field_ising'), 'SmeanField', S0)
    else:
        s.Sindependent = S0
    T = ctx.real('T', lo=0)
    kw = dict(independentRef=False, meanFieldRef=True) if mf else {}
    if mfp:
        kw['meanFieldPriorLmbda'] = mfp
    if cl is not None:
        kw['cluster'] = list(cl)
    m, ent, clusters, dS, dJ = s.solve(T, iprint=False, full_output=True, priorLmbda=3, numSamples=7, **kw)
    cluster = cl or tuple(range(n))
    for c, k in S.count.items():
        ctx.check(k == 1, 'entropy of %s calculated once' % (c,))
    out = kept_clusters(ctx, n, cluster, clusters, T, S, S0)
    e, J = S0.get(cluster)
    J = J.copy()
    for c in out:
        de, dj = delta(ctx, n, c, S, S0)
        e = e + de
        J = J + dj
        ctx.eq(dS[c], de, 'entropy difference of %s' % (c,))
        ctx.eq(dJ[c], dj, 'coupling difference of %s' % (c,))
    ctx.eq(ent, e, 'entropy')
    energies_match(ctx, m, J, n, 'distribution')
    ctx.eq(s.multipliers, m, 'result kept')
    if len(out) == 2 ** len(cluster) - 1:
        ctx.eq(ent, S.get(cluster)[0], 'all clusters kept: exact entropy')
        energies_match(ctx, m, S.get(cluster)[1], n, 'all clusters kept: exact couplings')


@R.harness(encodes=[V + 'solve', V + 'deltaS'],
           bound='n = 3 spins, every data set of 1 sample, every entropy and coupling matrix, every pair of thresholds',
           max_paths=60000, tol=1e-5, cases=[dict(n=3)])
def reuse(ctx, n):
    X = ctx.ints('s', (1, n), (-1, 1))
    cooc = expected(ctx, n, X)
    sv, s = solver(ctx, X)
    S, S0 = Entropies(ctx, n, 'S', cooc), Entropies(ctx, n, 'R', cooc)
    s.S, s.Sindependent = S, S0
    T1, T2 = ctx.real('T1', lo=0), ctx.real('T2', lo=0)
    dS, dJ = {}, {}
    s.solve(T1, deltaSdict=dS, deltaJdict=dJ, iprint=False)
    before = dict(S.count)
    m, ent, clusters, dS2, dJ2 = s.solve(T2, deltaSdict=dS, deltaJdict=dJ, iprint=False, full_output=True)
    ctx.check(all(k == 1 for k in S.count.values()), 'known entropies are not calculated again')
    out = kept_clusters(ctx, n, tuple(range(n)), clusters, T2, S, S0)
    e, J = S0.get(range(n))
    J = J.copy()
    for c in out:
        de, dj = delta(ctx, n, c, S, S0)
        e, J = e + de, J + dj
    ctx.eq(ent, e, 'entropy')
    energies_match(ctx, m, J, n, 'distribution')


FAMILIES = {
    'all of 4': (4, lambda c: True), 'all of 5': (5, lambda c: True), 'pairs of 5': (5, lambda c: len(c) == 2),
    'chain of 5': (5, lambda c: max(c) - min(c) == len(c) - 1), 'star of 5': (5, lambda c: 4 in c),
    'no pair 01 of 4': (4, lambda c: not {0, 1} <= set(c)), 'triples of 6': (6, lambda c: len(c) == 2 and sum(c) % 2 or len(c) == 3),
    'ring of 6': (6, lambda c: len(c) == 2 and abs(c[0] - c[1]) in (1, 5) or len(c) == 3), 'half of 5': (5, lambda c: (sum(c) + len(c)) % 2),
    'all but one of 5': (5, lambda c: c != (1, 3, 4))}


@R.harness(encodes=[V + 'solve'], bound='4..6 spins, entropy and coupling differences of all clusters given and arbitrary, in ten families of clusters '
           'above the threshold; any threshold', tol=1e-5, cases=[dict(fam=f) for f in FAMILIES])
def chosen(ctx, fam):
    """Which clusters are reached and summed, when their differences are known."""
    n, big = FAMILIES[fam]
    X = ctx.np.array([[(-1)**(i // (r + 1)) for i in range(n)] for r in range(3)] + [[1] * n, [-1] * n])
    cooc = expected(ctx, n, X)
    sv, s = solver(ctx, X)
    S0 = Entropies(ctx, n, 'R', cooc)
    s.Sindependent = S0
    T = ctx.real('T', lo=0)
    dS, dJ = {}, {}
    for c in subsets(tuple(range(n))):
        nm = 'd' + '_'.join(map(str, c))
        e = ctx.real(nm)
        if not ctx.symbolic:
            e = (1 if e > 0 else -1) * (T + abs(e) if big(c) else T * .9)
        dS[c] = e
        if len(c) > 1:
            ctx.assume((ctx.or_(ctx.lt_(T, e), ctx.lt_(e, -T))) if big(c) else ctx.and_(ctx.le_(e, T), ctx.le_(-T, e)))
        J = ctx.np.zeros((n, n))
        J[c[0], c[-1]] = J[c[-1], c[0]] = ctx.real(nm + 'J')
        dJ[c] = J
    m, ent, clusters, _, _ = s.solve(T, deltaSdict=dict(dS), deltaJdict={c: J.copy() for c, J in dJ.items()}, iprint=False, full_output=True)
    now, out = [(i,) for i in range(n)], [(i,) for i in range(n)]
    size = 1
    while now:
        now = sorted(set(tuple(sorted(set(a) | set(b))) for a, b in combinations(now, 2) if len(set(a) & set(b)) == size - 1))
        now = [c for c in now if big(c)]
        size += 1
        ctx.check(sorted(tuple(int(x) for x in c) for c in clusters.get(size, [])) == now, 'clusters of size %d' % size)
        out += now
    e, J = S0.get(range(n))
    J = J.copy()
    for c in out:
        e, J = e + dS[c], J + dJ[c]
    ctx.eq(ent, e, 'entropy')
    energies_match(ctx, m, J, n, 'distribution')


@R.harness(encodes=[V + 'subsets', V + 'clusterID'], bound='sets of up to 5 arbitrary different integers, every size', max_paths=4000,
           cases=[dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=n) for n in (4, 5)])
def all_subsets(ctx, n):
    sv, s = solver(ctx, ctx.np.array([[1, -1], [1, 1]]))
    base = [int(ctx.choice('x%d' % i, (i, i + 1, i + 2))) for i in range(n)]
    if len(set(base)) < n:
        ctx.raises(lambda: s.subsets(list(base), 1), Exception, 'repeated elements')
        return
    ctx.check(tuple(s.clusterID(base)) == tuple(sorted(base)), 'identifier')
    for k in range(1, n + 1):
        got = [tuple(sorted(int(y) for y in x)) for x in s.subsets(list(base), k)]
        ctx.check(sorted(got) == sorted(combinations(sorted(base), k)), 'subsets of size %d' % k)
    ctx.check(len(s.subsets(list(base), n + 1)) == 0, 'no larger subset')
    ctx.check(len(s.subsets(list(base), 0)) == 0, 'no empty subset')


def states(n, lo=0):
    return [f for f in product((0, 1), repeat=n) if sum(f) >= lo]


def weight(ctx, J, f, h=0):
    n = len(f)
    return -ctx.sum([J[i, j] for i in range(n) for j in range(n) if f[i] and f[j]]) + h * sum(f)


@R.harness(encodes=[M + 'unsummedLogZ', M + 'unsummedZ', M + 'coocExpectations', M + 'fightPossibilities', M + 'analyticEntropy'],
           bound='n = 1..3 spins (thorough 4), every real matrix (not necessarily symmetric), external field and minimum size', tol=1e-5,
           cases=[dict(n=1, lo=0), dict(n=2, lo=0), dict(n=3, lo=0), dict(n=3, lo=2), dict(n=2, lo=1)],
           thorough=[dict(n=4, lo=0), dict(n=4, lo=1), dict(n=4, lo=3)])
def exact_model(ctx, n, lo):
    mf = ctx.lib('mean_field_ising')
    J = ctx.reals('J', (n, n))
    h = ctx.real('hext')
    st = states(n, lo)
    ctx.check([tuple(int(x) for x in f) for f in mf.fightPossibilities(n, lo)] == st, 'states')
    lz = mf.unsummedLogZ(J, hext=h, minSize=lo)
    z = mf.unsummedZ(J, hext=h, minSize=lo)
    ctx.check(len(lz) == len(st) and len(z) == len(st), 'one weight per state')
    w = []
    for k, f in enumerate(st):
        ctx.eq(lz[k], weight(ctx, J, f, h), 'log weight')
        w.append(ctx.exp(weight(ctx, J, f, h)))
        ctx.eq(z[k], w[-1], 'weight')
    Z = ctx.sum(w)
    c = mf.coocExpectations(J, h, True, lo)
    g = mf.coocExpectations(J, h, False, lo)
    for i in range(n):
        for j in range(n):
            e = ctx.sum([x for x, f in zip(w, st) if f[i] and f[j]]) / Z
            ctx.eq(g[i, j], e, 'cooccurrence %d %d' % (i, j))
            ctx.eq(c[i, j], e if j >= i else 0, 'upper triangle %d %d' % (i, j))
    if lo == 0:
        w0 = [ctx.exp(weight(ctx, J, f)) for f in st]
        Z0 = ctx.sum(w0)
        ctx.eq(mf.analyticEntropy(J), ctx.log(Z0) - ctx.sum([x * weight(ctx, J, f) for x, f in zip(w0, st)]) / Z0, 'entropy')


class Leastsq:
    """Stand-in for scipy.optimize.leastsq: arbitrary result; keeps the residuals at a trial point."""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def __call__(self, f, x0, *a, **k):
        c = len(self.calls)
        t = self.ctx.reals('trial%d' % c, len(x0))
        r = self.ctx.reals('root%d' % c, len(x0))
        f(x0.copy())
        self.calls.append((x0.copy(), t, f(t.copy()), r))
        return r.copy(), 1


def pairs(n):
    """Order of the flattened upper triangle: diagonal by diagonal."""
    return [(i, i + d) for d in range(n) for i in range(n - d)]


def tri(ctx, v, n):
    J = ctx.np.zeros((n, n))
    for k, (i, j) in enumerate(pairs(n)):
        J[i, j] = v[k]
    return J


@R.harness(encodes=[V + 'S', M + 'findJmatrixAnalytic_CoocMat', M + 'coocCluster', M + 'JfullFromCluster', M + 'aboveDiagFlat',
                    M + 'unflatten', M + 'diagFlatIndex', M + 'analyticEntropy'],
           bound='clusters of 1..3 of up to 4 spins (thorough 4 of 5), indices in any order, every cooccurrence matrix with entries between 0 and 1, every trial point and result of the root '
           'finder, with and without prior', tol=1e-5, budget=300,
           cases=[dict(n=3, c=(1,), prior=False), dict(n=3, c=(0, 2), prior=False), dict(n=3, c=(0, 1, 2), prior=False),
                  dict(n=4, c=(1, 2), prior=True), dict(n=3, c=(0, 1, 2), prior=True), dict(n=3, c=(2, 1, 0), prior=False),
                  dict(n=4, c=(3, 1), prior=True)],
           thorough=[dict(n=4, c=(2, 3, 0), prior=True), dict(n=4, c=(1, 3, 0, 2), prior=False), dict(n=5, c=(0, 1, 3, 4), prior=False)])
def cluster_entropy(ctx, n, c, prior):
    ctx.exact_logs()
    sv, s = solver(ctx, ctx.np.array([[1, -1], [1, 1]]))
    C = ctx.np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            C[i, j] = ctx.real('c%d%d' % (i, j), lo=ctx.frac(1, 100), hi=ctx.frac(99, 100))
    C0 = C.copy()
    fake = Leastsq(ctx)
    mf = ctx.lib('mean_field_ising')
    ctx.optimizer(mf.scipy.optimize, 'leastsq', fake)
    lam = ctx.real('lam', lo=ctx.frac(1, 10), hi=5)
    ent, J = s.S(list(c), C, priorLmbda=lam, numSamples=8) if prior else s.S(list(c), C)
    ctx.eq(C, C0, 'cooccurrences unchanged')
    ctx.check(len(fake.calls) == 1, 'one root finding')
    x0, t, res, r = fake.calls[0]
    k = len(c)
    pr = pairs(k)
    ctx.check(len(x0) == len(pr), 'unknowns')
    for a, (i, j) in enumerate(pr):
        if i == j:
            ctx.eq(ctx.exp(-x0[a]) * (1 - C[c[i], c[i]]), C[c[i], c[i]], 'start: independent fields')
        else:
            ctx.eq(x0[a], 0, 'start: no couplings')
    st = states(k)
    T = tri(ctx, t, k)
    w = [ctx.exp(weight(ctx, T, f)) for f in st]
    Z = ctx.sum(w)
    want = [ctx.sum([x for x, f in zip(w, st) if f[i] and f[j]]) / Z - C[min(c[i], c[j]), max(c[i], c[j])] for i, j in pr]
    if prior and k > 1:
        for a, (i, j) in enumerate(pr):
            if i != j:
                p, q = C[c[i], c[i]], C[c[j], c[j]]
                want.append(lam / 8 * p * (1 - p) * q * (1 - q) * t[a] * t[a])
    ctx.check(len(res) == len(want), 'residuals')
    for a, x in enumerate(want):
        ctx.eq(res[a], x, 'residual %d' % a)
    Jr = tri(ctx, r, k)
    where = dict((x, a) for a, x in enumerate(c))
    for i in range(n):
        for j in range(n):
            if i in where and j in where:
                a, b = sorted((where[i], where[j]))
                ctx.eq(J[i, j], Jr[a, b] if a == b else Jr[a, b] / 2, 'coupling %d %d' % (i, j))
            else:
                ctx.eq(J[i, j], 0, 'zero outside the cluster')
    w = [ctx.exp(weight(ctx, Jr, f)) for f in st]
    Z = ctx.sum(w)
    ctx.eq(ent, ctx.log(Z) - ctx.sum([x * weight(ctx, Jr, f) for x, f in zip(w, st)]) / Z, 'entropy of the distribution found')


@R.harness(encodes=[M + 'findJmatrixAnalytic_CoocMat', M + 'coocMatBayesianMean', M + 'coocExpectations', M + 'fightPossibilities'],
           bound='2 and 3 spins, every cooccurrence matrix, start, minimum size, prior; with and without pseudocounts', tol=1e-5,
           cases=[dict(n=2, lo=1, mean=False, start=False), dict(n=2, lo=0, mean=True, start=False), dict(n=2, lo=0, mean=False, start=True),
                  dict(n=3, lo=2, mean=False, start=True), dict(n=2, lo=1, mean=True, start=False, prior=True)],
           thorough=[dict(n=3, lo=1, mean=True, start=True, prior=True), dict(n=3, lo=3, mean=False, start=False)])
def fit(ctx, n, lo, mean, start, prior=False):
    """All options of the root finding by themselves."""
    ctx.exact_logs()
    C = ctx.np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            C[i, j] = ctx.real('c%d%d' % (i, j), lo=ctx.frac(1, 100), hi=ctx.frac(99, 100))
    C0 = C.copy()
    fake = Leastsq(ctx)
    mf = ctx.lib('mean_field_ising')
    ctx.optimizer(mf.scipy.optimize, 'leastsq', fake)
    k = {}
    if lo:
        k['minSize'] = lo
    if mean:
        k.update(bayesianMean=True)
    if mean or prior:
        k['numSamples'] = 8
    if start:
        Ji = ctx.np.zeros((n, n))
        for i, j in pairs(n):
            Ji[i, j] = ctx.real('s%d%d' % (i, j), lo=-2, hi=2)
        k['Jinit'] = Ji.copy()
    if prior:
        k['priorLmbda'] = lam = ctx.real('lam', lo=ctx.frac(1, 10), hi=5)
    J = mf.findJmatrixAnalytic_CoocMat(C, **k)
    ctx.eq(C, C0, 'cooccurrences unchanged')
    ctx.check(len(fake.calls) == 1, 'one root finding')
    x0, t, res, r = fake.calls[0]
    D = {(i, j): (8 * C[i, j] + 1) / 10 if mean else C[i, j] for i, j in pairs(n)}
    for a, (i, j) in enumerate(pairs(n)):
        if start:
            ctx.eq(x0[a], Ji[i, j], 'start as given')
        elif i == j:
            ctx.eq(ctx.exp(-x0[a]) * (1 - D[i, i]), D[i, i], 'start: independent fields')
        else:
            ctx.eq(x0[a], 0, 'start: no couplings')
    if start:
        ctx.eq(k['Jinit'], Ji, 'start unchanged')
    st = states(n, lo)
    T = tri(ctx, t, n)
    w = [ctx.exp(weight(ctx, T, f)) for f in st]
    Z = ctx.sum(w)
    want = [ctx.sum([x for x, f in zip(w, st) if f[i] and f[j]]) / Z - D[i, j] for i, j in pairs(n)]
    if prior:
        for a, (i, j) in enumerate(pairs(n)):
            if i != j:
                p, q = D[i, i], D[j, j]
                want.append(lam / 8 * p * (1 - p) * q * (1 - q) * t[a] * t[a])
    ctx.check(len(res) == len(want), 'residuals')
    for a, x in enumerate(want):
        ctx.eq(res[a], x, 'residual %d' % a)
    Jr = tri(ctx, r, n)
    for i in range(n):
        for j in range(n):
            a, b = sorted((i, j))
            ctx.eq(J[i, j], Jr[a, b] if a == b else Jr[a, b] / 2, 'coupling %d %d' % (i, j))


@R.harness(encodes=[V + 'Sindependent', M + 'coocCluster', M + 'symmetrizeUsingUpper', M + 'replaceDiag', M + 'JfullFromCluster'],
           bound='clusters of 1..3 of 4 spins, all frequencies between 0 and 1', tol=1e-5,
           cases=[dict(n=4, c=(2,)), dict(n=4, c=(0, 3)), dict(n=4, c=(0, 1, 3))])
def independent(ctx, n, c):
    ctx.exact_logs()
    sv, s = solver(ctx, ctx.np.array([[1, -1], [1, 1]]))
    C = ctx.np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            C[i, j] = ctx.real('c%d%d' % (i, j), lo=ctx.frac(1, 100), hi=ctx.frac(99, 100))
    ent, J = s.Sindependent(list(c), C)
    want = 0
    for i in range(n):
        for j in range(n):
            if i == j and i in c:
                ctx.eq(ctx.exp(-J[i, i]) * (1 - C[i, i]), C[i, i], 'independent field')
            else:
                ctx.eq(J[i, j], 0, 'no couplings')
    for i in c:
        p = C[i, i]
        want = want - p * ctx.log(p) - (1 - p) * ctx.log(1 - p)
    ctx.eq(ent, want, 'entropy of independent spins')


@R.harness(encodes=[V + 'S', M + 'analyticEntropy', M + 'JfullFromCluster', M + 'unsummedLogZ'],
           bound='clusters of 1 and 2 of 3 spins, all cooccurrences of distributions without empty states', tol=1e-5,
           cases=[dict(c=(1,)), dict(c=(0, 2)), dict(c=(2, 1))])
def analytic(ctx, c):
    ctx.exact_logs()
    n = 3
    sv, s = solver(ctx, ctx.np.array([[1, -1], [1, 1]]))
    C = ctx.np.zeros((n, n))
    c0 = sorted(c)
    k = len(c)
    if k == 1:
        p = {(1,): ctx.real('p', pos=True)}
        p[(0,)] = 1 - p[(1,)]
        C[c0[0], c0[0]] = p[(1,)]
    else:
        p = {f: ctx.real('p%d%d' % f, pos=True) for f in ((0, 1), (1, 0), (1, 1))}
        p[(0, 0)] = 1 - p[(0, 1)] - p[(1, 0)] - p[(1, 1)]
        C[c0[0], c0[0]] = p[(1, 0)] + p[(1, 1)]
        C[c0[1], c0[1]] = p[(0, 1)] + p[(1, 1)]
        C[c0[0], c0[1]] = p[(1, 1)]
    zero = (0,) * k
    ctx.assume(p[zero] > 0)
    ent, J = s.S(list(c), C, useAnalyticResults=True)
    lw = []
    for f in states(k):
        g = [0] * n
        for i, x in zip(c0, f):
            g[i] = x
        lw.append(weight(ctx, J, g))
        ctx.eq(ctx.exp(lw[-1]) * p[zero], p[f], 'probability of %s' % (f,))
    if k == 1:
        ctx.eq(ent, -ctx.sum([q * ctx.log(q) for q in p.values()]), 'entropy')
    for i in range(n):
        for j in range(n):
            if i not in c or j not in c:
                ctx.eq(J[i, j], 0, 'zero outside the cluster')
            ctx.eq(J[i, j], J[j, i], 'symmetric')


@R.harness(encodes=[M + 'cooccurrence_matrix', M + 'fourthOrderCoocMat', M + 'coocSampleCovariance', M + 'coocMatBayesianMean',
                    M + 'coocStdevsFlat', M + 'isingDeltaCooc', M + 'symmetrizeUsingUpper', M + 'replaceDiag', M + 'zeroDiag',
                    M + 'aboveDiagFlat', M + 'unflatten', M + 'diagFlatIndex', M + 'coocCluster', M + 'JfullFromCluster'],
           bound='n = 1..5 spins (thorough 6, 8), every data set of 2 samples of {0,1}, every real matrix', tol=1e-6,
           cases=[dict(n=n) for n in (1, 2, 3, 4, 5)], thorough=[dict(n=6), dict(n=8)])
def matrices(ctx, n):
    mf = ctx.lib('mean_field_ising')
    S = 2
    X = ctx.ints('s', (S, n), (0, 1))
    pr = pairs(n)
    C = mf.cooccurrence_matrix(X * 1.)
    N = mf.cooccurrence_matrix(X * 1., keep_diag=False)
    for i in range(n):
        for j in range(n):
            e = ctx.sum([X[r, i] * X[r, j] for r in range(S)]) * ctx.frac(1, S)
            ctx.eq(C[i, j], e if j >= i else 0, 'cooccurrence')
            ctx.eq(N[i, j], e if j > i else 0, 'cooccurrence without diagonal')
    F = mf.fourthOrderCoocMat(X)
    for a, (i, j) in enumerate(pr):
        for b, (k, m) in enumerate(pr):
            ctx.eq(F[a, b], ctx.sum([X[r, i] * X[r, j] * X[r, k] * X[r, m] for r in range(S)]) * ctx.frac(1, S), 'fourth order')
    A = ctx.reals('A', (n, n))
    A0 = A.copy()
    v = ctx.reals('v', len(pr))
    f = mf.aboveDiagFlat(A, keepDiag=True)
    ctx.check(len(f) == len(pr), 'flattened size')
    g = mf.aboveDiagFlat(A, keepDiag=True, offDiagMult=2)
    for a, (i, j) in enumerate(pr):
        ctx.check(mf.diagFlatIndex(i, j, n) == a, 'flat index')
        ctx.eq(f[a], A0[i, j], 'flattened')
        ctx.eq(g[a], A0[i, j] * (1 if i == j else 2), 'flattened, off-diagonal entries doubled')
    ctx.eq(A, A0, 'input unchanged')
    if n > 1:
        f = mf.aboveDiagFlat(A)
        ctx.check(len(f) == len(pr) - n, 'flattened size')
        for a, (i, j) in enumerate(pr[n:]):
            ctx.eq(f[a], A0[i, j], 'flattened without diagonal')
    U, W = mf.unflatten(v, n), mf.unflatten(v, n, symmetrize=True)
    Y = mf.symmetrizeUsingUpper(A)
    D, Z = mf.replaceDiag(A, v[:n]), mf.zeroDiag(A)
    where = dict((x, a) for a, x in enumerate(pr))
    for i in range(n):
        for j in range(n):
            a = where[min(i, j), max(i, j)]
            ctx.eq(U[i, j], v[a] if j >= i else 0, 'unflattened')
            ctx.eq(W[i, j], v[a] if i == j else v[a] / 2, 'unflattened and symmetrised')
            ctx.eq(Y[i, j], A0[min(i, j), max(i, j)], 'symmetrised')
            ctx.eq(D[i, j], v[i] if i == j else A0[i, j], 'diagonal replaced')
            ctx.eq(Z[i, j], 0 if i == j else A0[i, j], 'diagonal zeroed')
    K = 10
    q = ctx.np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            q[i, j] = ctx.real('q%d%d' % (i, j), lo=0, hi=1)
    B = mf.coocMatBayesianMean(q, K)
    sd = mf.coocStdevsFlat(q, K)
    for i in range(n):
        for j in range(n):
            ctx.eq(B[i, j] * (K + 2), q[i, j] * K + 1, 'Laplace estimate')
    for a, (i, j) in enumerate(pr):
        b = (q[i, j] * K + 1) / (K + 2)
        ctx.eq(sd[a], ctx.sqrt(b * (1 - b) / K), 'standard deviation')
    dl = mf.isingDeltaCooc(X * 1., q)
    for a, (i, j) in enumerate(pr):
        ctx.eq(dl[a], C[i, j] - q[i, j], 'difference to the data')
    for bm in (True, False):
        cov = mf.coocSampleCovariance(X, bayesianMean=bm, includePrior=False)
        for a in range(len(pr)):
            for b in range(len(pr)):
                y = (F[a, b] * S + 1) / (S + 2) if bm and a == b else F[a, b]
                ctx.eq(cov[a, b], y * (1 - y), 'sample covariance')
