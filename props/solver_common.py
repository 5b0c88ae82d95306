"""Shared stand-ins for the solver harnesses."""


class Soln(dict):
    """Like scipy.optimize.OptimizeResult."""

    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


class Optimizer:
    """Stand-in for a scipy optimiser: keeps the calls and returns an arbitrary vector."""

    def __init__(self, ctx, name='soln', probe=False):
        self.ctx, self.name, self.calls, self.results = ctx, name, [], []
        self.probe, self.probes = probe, []     # (trial point, value, gradient), evaluated during the call

    def __call__(self, f, x0, *a, **kw):
        k = len(self.calls)
        self.calls.append((f, x0, kw))
        x = self.ctx.reals('%s%d' % (self.name, k), x0.size)
        r = Soln(x=x, success=True, fun=0, message='', status=0, nit=1)
        self.results.append(r)
        if self.probe:
            t = self.ctx.reals('trial%d' % k, x0.size)
            self.evaluate(k, x0.copy())     # an optimiser evaluates its starting point first
            self.probes.append((t,) + self.evaluate(k, t.copy()))
        return r

    def evaluate(self, k, x):
        """(value, gradient or None) of the k-th objective at x."""
        f, _, kw = self.calls[k]
        args = kw.get('args', ())
        r = f(x, *args)
        jac = kw.get('jac')
        if callable(jac):
            return r, jac(x, *args)
        if jac:
            return r
        return r, None


class AnyModel:
    """A model about which nothing is known: fresh observables for every parameter vector."""
    sampleSize = 1

    def __init__(self, ctx, m):
        self.ctx, self.m, self.calls = ctx, m, []

    def calc_observables(self, x):
        o = self.ctx.reals('obs%d' % len(self.calls), self.m)
        self.calls.append((x.copy(), o))
        return o.copy()


def guess_vector(ctx, name, m, kind):
    """An initial guess: real numbers, or whole numbers in an integer array (kind 'int')."""
    return ctx.ints(name, m, (-2, 0, 1)) if kind == 'int' else ctx.reals(name, m)
