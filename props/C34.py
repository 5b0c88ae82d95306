"""C34: mean-field functions of homogeneous systems are those of the exact model."""
from itertools import product
from vf.engine import Registry

R = Registry()
M = 'coniii.mean_field_ising.'
RANGE = 4       # for arguments in replays


class Homogeneous:
    """N spins that all interact alike, with J > 0; any number of places on the axis of the auxiliary field."""

    def __init__(self, ctx, N):
        self.ctx, self.N = ctx, N
        self.h = ctx.real('h', lo=-RANGE, hi=RANGE)
        self.J = ctx.real('J', pos=True, lo=ctx.frac(1, 20), hi=2)
        self.Jbar = N * self.J

    def place(self, name):
        """Any value m of the field, and the local field that belongs to it."""
        ctx = self.ctx
        m = ctx.real(name, lo=-RANGE, hi=RANGE)
        return m, 2 * self.Jbar * m + self.h

    def weight(self, m, x):
        """Summand of the partition function at m: all states with their energies, without the common prefactor."""
        ctx = self.ctx
        return ctx.sum([ctx.exp(sum(s) * x - self.Jbar * m * m * self.N) for s in product((-1, 1), repeat=self.N)])

    def prefactor(self):
        return self.ctx.sqrt(self.ctx.np.pi / (self.N * self.Jbar))

    def tanh(self, x):
        if not self.ctx.symbolic:
            return self.ctx.np.tanh(x)
        e = self.ctx.exp(-2 * x)
        return (1 - e) / (1 + e)


class Quadrature:
    """Stand-in for quad over the real axis: some positive linear functional of the integrand, given by nodes and weights."""

    def __init__(self, ctx, hom, k=2):
        self.ctx, self.hom = ctx, hom
        if ctx.symbolic:
            self.nodes = [hom.place('x%d' % q) for q in range(k)]
            self.w = [ctx.real('w%d' % q, pos=True) for q in range(k)]

    def __call__(self, f, a, b, *r, **k):
        ctx = self.ctx
        if str(a) != '-inf' or str(b) != 'inf':
            return ctx.real('other limits', pos=True), 0
        return ctx.sum([w * f(m, *k.get('args', ())) for w, (m, x) in zip(self.w, self.nodes)]), 0

    def integral(self, f):
        """Of f(m, x), by the same rule (or numerically on the real code)."""
        ctx, hom = self.ctx, self.hom
        if ctx.symbolic:
            return ctx.sum([w * f(m, x) for w, (m, x) in zip(self.w, self.nodes)])
        from scipy.integrate import quad
        return quad(lambda m: f(m, 2 * hom.Jbar * m + hom.h), -float('inf'), float('inf'))[0]


@R.harness(encodes=[M + 'FHomogeneous', M + 'dFdT', M + 'logCosh'], bound='1..5 spins (thorough 8), all fields, positive couplings and auxiliary fields',
           tol=1e-6, cases=[dict(N=n) for n in (1, 2, 3, 5)], thorough=[dict(N=n) for n in (4, 6, 8)])
def free_energy(ctx, N):
    ctx.exact_logs()
    ctx.fork_abs()
    mf = ctx.lib('mean_field_ising')
    q = Homogeneous(ctx, N)
    m, x = q.place('x')
    F = mf.FHomogeneous(q.h, q.J, N, m)
    ctx.eq(ctx.exp(mf.FHomogeneous(q.h, q.J, N, m)) * q.weight(m, x), q.prefactor(), 'exp(-F) is the integrand of the partition function')
    # F at temperature T has h/T and J/T
    ctx.eq(mf.dFdT(q.h, q.J, N, m), -N * q.Jbar * m * m + N * x * q.tanh(x) + ctx.frac(1, 2), 'dF/dT at T = 1')
    ctx.eq(ctx.exp(mf.logCosh(x)) * 2, ctx.exp(x) + ctx.exp(-x), 'log cosh')


@R.harness(encodes=[M + f for f in ('SHomogeneous', 'avgmHomogeneous', 'avgxHomogeneous', 'multiInfoHomogeneous', 'independentEntropyHomogeneous',
                                    'independentEntropyHomogeneous2', 'FHomogeneous', 'dFdT')],
           bound='1..3 spins (thorough 4), all fields and positive couplings; integrals as any positive weights on 2 places of the axis', tol=1e-5,
           cases=[dict(N=n) for n in (1, 2, 3)], thorough=[dict(N=4)])
def averages(ctx, N):
    ctx.exact_logs()
    ctx.fork_abs()
    mf = ctx.lib('mean_field_ising')
    q = Homogeneous(ctx, N)
    rule = Quadrature(ctx, q)
    if ctx.symbolic:
        ctx.optimizer(mf, 'quad', rule)

    def w(m, x):        # decided in free_energy
        return ctx.exp(-mf.FHomogeneous(q.h, q.J, N, m))
    Z = rule.integral(w)
    am = rule.integral(lambda m, x: m * w(m, x)) / Z
    ax = rule.integral(lambda m, x: q.tanh(x) * w(m, x)) / Z
    df = rule.integral(lambda m, x: (-N * q.Jbar * m * m + N * x * q.tanh(x) + ctx.frac(1, 2)) * w(m, x)) / Z
    a = (q.h, q.J, N)
    ctx.eq(mf.avgmHomogeneous(*a), am, 'average auxiliary field')
    ctx.eq(mf.avgxHomogeneous(*a), ax, 'average spin')
    S = mf.SHomogeneous(*a)
    ctx.eq(S, ctx.log(Z) - df, 'entropy')
    lp, ln = ctx.log((1 + ax) / 2), ctx.log((1 - ax) / 2)
    ind = mf.independentEntropyHomogeneous(*a)
    ctx.eq(ind, -N * ((1 + ax) / 2 * lp + (1 - ax) / 2 * ln), 'independent entropy')
    ctx.eq(mf.multiInfoHomogeneous(*a), ind - S, 'multi-information')


@R.harness(encodes=[M + 'm'], bound='all parameters, any root', cases=[dict(ell=e) for e in (2, 3, 5)])
def fixed_point(ctx, ell):
    mf = ctx.lib('mean_field_ising')
    h, J = ctx.real('h', lo=-2, hi=2), ctx.real('J', lo=ctx.frac(1, 10), hi=2)
    T = ctx.real('T', pos=True, lo=ctx.frac(1, 2), hi=3)
    if not ctx.symbolic:
        r = mf.m(h, J, ell, T)
        e = ctx.exp((h + 2 * (ell - 1) * r * J) / T)
        ctx.eq(r * (1 + e), 1, 'fixed point of the mean-field equation')
        return
    root = ctx.real('root', lo=0, hi=1)
    x = ctx.real('x', lo=0, hi=1)
    calls = []

    def find(f, a, b, **k):
        fa, fb = f(a), f(b)
        ctx.check(ctx.or_(ctx.and_(ctx.le_(fa, 0), ctx.le_(0, fb)), ctx.and_(ctx.le_(0, fa), ctx.le_(fb, 0))), 'the bracket holds the root')
        calls.append((x, f(x)))
        return root
    for nm in ('brentq', 'brenth', 'bisect', 'ridder', 'toms748'):
        ctx.optimizer(mf, nm, find)
    ctx.eq(mf.m(h, J, ell, T), root, 'the root found is returned')
    ctx.check(len(calls) == 1, 'one root')
    e = ctx.exp((h + 2 * (ell - 1) * x * J) / T)
    ctx.check(ctx.or_(ctx.eq_(calls[0][1] * (1 + e), x * (1 + e) - 1), ctx.eq_(-calls[0][1] * (1 + e), x * (1 + e) - 1)),
              'the equation is m = 1 / (1 + exp((h + 2 (ell - 1) m J) / T))')


@R.harness(encodes=[M + 'meanFieldStability'], bound='2 spins, all symmetric couplings, fields on the diagonal and frequencies', tol=1e-6,
           cases=[dict()])
def stability(ctx):
    mf = ctx.lib('mean_field_ising')
    J = ctx.np.zeros((2, 2))
    j = ctx.real('j', pos=True, lo=ctx.frac(1, 10), hi=2) * ctx.choice('sign', (-1, 1))
    J[0, 1] = J[1, 0] = j
    J[0, 0], J[1, 1] = ctx.real('h0', lo=-2, hi=2), ctx.real('h1', lo=-2, hi=2)
    J0 = J.copy()
    f = ctx.np.array([ctx.real('f%d' % i, lo=ctx.frac(1, 100), hi=ctx.frac(99, 100)) for i in range(2)])
    if ctx.symbolic:
        def values(A, *a, **k):
            # roots of x^2 - t x + d
            t, d = A[0, 0] + A[1, 1], A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
            s = ctx.sqrt(t * t - 4 * d)
            return ctx.np.array([(t + s) / 2, (t - s) / 2])
        ctx.patch(mf.scipy.linalg, 'eigvals', values)
    r = mf.meanFieldStability(J, f)
    ctx.check(ctx.le_(0, r), 'not negative')
    ctx.eq(r * r, 4 * j * j * f[0] * (1 - f[0]) * f[1] * (1 - f[1]), 'largest eigenvalue of the mean-field map, in magnitude')
    ctx.eq(J, J0, 'couplings unchanged')
