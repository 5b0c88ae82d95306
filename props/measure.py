"""Transition probabilities of randomised code, by running it once for every outcome of its random decisions.

The draws are objects without a value: a comparison with a threshold is answered by the script, which is then
extended until all outcomes have been seen. The probability of a run is the product of the lengths of the intervals
its uniform draws are confined to, times 1/k for every draw out of k."""
import numpy as np


class U:
    """A uniform draw from [0, 1), confined to an interval by the comparisons made."""
    __array_priority__ = 1000
    __hash__ = None

    def __init__(self, m):
        self.m, self.lo, self.hi = m, [], []

    def _less(self, t):
        """Is the draw below t?"""
        b = self.m.decide(2) == 0
        (self.hi if b else self.lo).append(t)
        return b

    def __lt__(self, t): return self._cmp(t, 1)
    def __le__(self, t): return self._cmp(t, 1)
    def __gt__(self, t): return self._cmp(t, 0)
    def __ge__(self, t): return self._cmp(t, 0)

    def _cmp(self, t, sgn):
        if isinstance(t, np.ndarray) and t.ndim:
            return NotImplemented
        return self._less(t) == bool(sgn)

    def length(self):
        """Probability of the answers given; forks on the order of the thresholds."""
        c = self.m.ctx
        lo, hi = 0, 1
        for t in self.lo:
            if c.branch(c.lt_(lo, t)):
                lo = t
        for t in self.hi:
            if c.branch(c.lt_(t, hi)):
                hi = t
        return hi - lo if c.branch(c.lt_(lo, hi)) else 0


class Measure:
    """Stands in for a RandomState."""

    def __init__(self, ctx, order=None):
        self.ctx, self.order = ctx, order

    # decisions
    def decide(self, k):
        if self.pos == len(self.script):
            self.script.append([0, k])
        self.pos += 1
        return self.script[self.pos - 1][0]

    def paths(self, f, limit=20000):
        """Yields the result of f and a function giving its probability, for all outcomes."""
        self.script = []
        for _ in range(limit):
            self.pos, self.us, self.factor = 0, [], 1
            r = f()
            us, fac = list(self.us), self.factor
            yield r, lambda us=us, fac=fac: self._prob(us, fac)
            self.script = self.script[:self.pos]
            while self.script and self.script[-1][0] == self.script[-1][1] - 1:
                self.script.pop()
            if not self.script:
                return
            self.script[-1][0] += 1
        raise RuntimeError('too many outcomes')

    def _prob(self, us, fac):
        w = self.ctx.frac(1, fac)
        for u in us:
            if u.lo or u.hi:
                w = w * u.length()
        return w

    # RandomState
    def random_sample(self, size=None):
        if size is None:
            u = U(self)
            self.us.append(u)
            return u
        a = self.ctx.np.zeros(size, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = U(self)
            self.us.append(a[i])
        return a

    random = uniform01 = random_sample

    def rand(self, *size):
        return self.random_sample(size or None)

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        if size is not None:
            return self.ctx.np.array([self.randint(low, high) for _ in range(int(size))])
        k = int(high) - int(low)
        self.factor *= k
        return int(low) + self.decide(k)

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None or (size is not None and not replace):
            raise NotImplementedError
        if size is not None:
            r = self.ctx.np.zeros(size, dtype=int)
            for i in np.ndindex(*r.shape):
                r[i] = self.choice(a)
            return r
        n = len(a) if hasattr(a, '__len__') else int(a)
        i = self.randint(n)
        return a[i] if hasattr(a, '__len__') else i

    def permutation(self, x):
        """Only the order given by the harness (taken as fixed)."""
        x = list(x) if hasattr(x, '__len__') else list(range(int(x)))
        return self.ctx.np.array([x[i] for i in self.order])

    def shuffle(self, x):
        x[:] = self.permutation(x)

    def seed(self, *a):
        pass
