"""Encoding of expr DAG formulas into z3 (real closed field + uninterpreted functions).

exp/log are algebraised: the argument of every exp is expanded into a linear combination of
monomials; a monomial m with granularity D gets one positive real x_m standing for exp(m/D), and
exp(sum c_m m) becomes a product of powers of the x_m.  log R inside an exponent contributes R (or
a D-th root of R).  Divisions are cleared by cross multiplication with common-factor tracking.
Link axioms tie x_m to m itself (monotonicity); they are added only in the second stage.
"""
import time
from fractions import Fraction
from math import lcm
import z3
from . import expr as E

E_LO, E_HI = Fraction(271828182845904523, 10**17), Fraction(271828182845904524, 10**17)


def q(f):
    f = Fraction(f)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


class TooBig(Exception):
    pass


_poly_cache = {}


def poly(n, limit=4000):
    """Expand node into {monomial: coef}; monomial = sorted tuple of (node id, power)."""
    key = n.id
    r = _poly_cache.get(key)
    if r is not None and r[0] is n:
        return r[1]
    n0 = n
    if n.op == 'toreal':
        n = n.args[0]
    if n.op == 'const':
        out = {(): n.data} if n.data != 0 else {}
    elif n.op == 'sum':
        out = {}
        if n.data[0]:
            out[()] = n.data[0]
        for t, k in zip(n.args, n.data[1:]):
            for m, c in poly(t, limit).items():
                out[m] = out.get(m, 0) + c * k
        out = {m: c for m, c in out.items() if c != 0}
    elif n.op == 'prod':
        out = {(): n.data[0]}
        for t, p in zip(n.args, n.data[1:]):
            if p < 0:
                f = {((t.id, p),): Fraction(1)}
                p = 1
            else:
                f = poly(t, limit)
            for _ in range(p):
                new = {}
                for m1, c1 in out.items():
                    for m2, c2 in f.items():
                        m = _mmul(m1, m2)
                        new[m] = new.get(m, 0) + c1 * c2
                if len(new) > limit:
                    raise TooBig()
                out = {m: c for m, c in new.items() if c != 0}
    else:
        out = {((n.id, 1),): Fraction(1)}
    _poly_cache[key] = (n0, out)
    return out


def _mmul(a, b):
    d = dict(a)
    for i, p in b:
        d[i] = d.get(i, 0) + p
    out = []
    for i in sorted(d):
        p = d[i]
        if p == 0:
            continue
        t = E._nodes[i]
        if t.op == 'var' and t.data[1] is not None and p > 1:
            dom = set(t.data[1])
            if dom <= {-1, 1}:
                p = p % 2
            elif dom <= {0, 1}:
                p = 1
            elif dom <= {-1, 0, 1}:
                p = 1 if p % 2 else 2
            if p == 0:
                continue
        out.append((i, p))
    return tuple(out)


def _linexp(n):
    """poly(n) or None if too large."""
    try:
        return poly(n)
    except TooBig:
        return {((n.id, 1),): Fraction(1)}


def _has_log(p):
    return any(len(m) == 1 and m[0][1] == 1 and E._nodes[m[0][0]].op == 'log' for m in p)


def _log_everywhere_linear(p):
    for m in p:
        logs = [i for i, pw in m if E._nodes[i].op == 'log']
        if logs and not (len(m) == 1 and m[0][1] == 1):
            return False
    return True


class Enc:
    def __init__(self, forms, full=False, logmerge=None, opaque=False):
        self.opaque = opaque
        self.forms = forms
        self.full = full
        self.side = []
        self.cache = {}
        self.bcache = {}
        self.vars = {}
        self.D = {}
        self.x = {}
        self.logmerge = logmerge or {}
        self.maxes = {}
        self.side_ids = set()
        self._collect()
        self.z = [self.b(f) for f in forms]
        if full:
            self._link()

    # ---- pre-pass -----------------------------------------------------------------------
    def _collect(self):
        seen = set()
        st = list(self.forms)
        exps, atoms = [], []
        nodes = []
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            nodes.append(n)
            if n.op == 'exp':
                if self.opaque:
                    continue
                exps.append(n)
            elif n.op in ('lt0', 'eq0'):
                atoms.append(n)
            st.extend(n.args)
        self.logs = [n for n in nodes if n.op == 'log']
        monos = set()
        for e in exps:
            p = _linexp(e.args[0])
            for m, c in p.items():
                if m == ():
                    monos.add(m)
                    self.D[m] = lcm(self.D.get(m, 1), c.denominator)
                else:
                    monos.add(m)
                    self.D[m] = lcm(self.D.get(m, 1), c.denominator)
        self.expatoms = {}
        for a in atoms:
            p = _linexp(a.args[0])
            if not _log_everywhere_linear(p):
                continue
            if _has_log(p):
                self.expatoms[a.id] = p
            elif self.full and a.op == 'lt0' and p and all(m in monos for m in p if m != ()) and any(
                    m != () for m in p) and max(abs(c.numerator) for c in p.values()) < 50 and len(p) < 40:
                self.expatoms[a.id] = p
        scale = {}
        for i, p in self.expatoms.items():
            # compare exp(s*d) with 1 for the smallest s making all coefficients integral w.r.t. D
            s = 1
            for m, c in p.items():
                s = lcm(s, (c * self.D.get(m, 1)).denominator)
            if s > 24:
                for m, c in p.items():
                    self.D[m] = lcm(self.D.get(m, 1), c.denominator)
                s = 1
            scale[i] = s
            for m in p:
                self.D.setdefault(m, 1)
        self.scale = scale

    def base(self, m):
        """z3 numerator/denominator-free base for exp(m/D_m)."""
        x = self.x.get(m)
        if x is not None:
            return x
        D = self.D.get(m, 1)
        if len(m) == 1 and m[0][1] == 1 and E._nodes[m[0][0]].op == 'log':
            R = E._nodes[m[0][0]].args[0]
            n, d = self.r(R)
            if D == 1:
                x = ('frac', n, d, R)
            else:
                y = z3.Real('root%d_%d' % (D, R.id))
                self.side.append(y > 0)
                self._eqfrac(self._pow(y, D), n, d)
                x = ('var', y)
        else:
            name = 'e' if m == () else 'x_' + '_'.join(
                '%s%s' % (E._nodes[i].data[0] if E._nodes[i].op == 'var' else 'n%d' % i, '' if p == 1 else '^%d' % p)
                for i, p in m)
            y = z3.Real('%s/%d' % (name, D))
            self.side.append(y > 0)
            if m == ():
                yD = self._pow(y, D)
                self.side.append(yD > q(E_LO))
                self.side.append(yD < q(E_HI))
            x = ('var', y)
        self.x[m] = x
        return x

    def _eqfrac(self, lhs, n, d):
        dd = self._den(d)
        self.side.append(lhs * dd == n if dd is not None else lhs == n)

    @staticmethod
    def _pow(y, k):
        r = y
        for _ in range(k - 1):
            r = r * y
        return r

    # ---- rationals: (num z3, den {key: (z3, power, pos)}) ------------------------------------
    def _den(self, d):
        r = None
        for k in d:
            e, p, _ = d[k]
            t = self._pow(e, p)
            r = t if r is None else r * t
        return r

    @staticmethod
    def _lcm(ds):
        out = {}
        for d in ds:
            for k, (e, p, pos) in d.items():
                if k not in out or out[k][1] < p:
                    out[k] = (e, p, pos)
        return out

    def _scale(self, n, d, L):
        for k, (e, p, pos) in L.items():
            have = d[k][1] if k in d else 0
            if p > have:
                n = n * self._pow(e, p - have)
        return n

    def r(self, n):
        c = self.cache.get(n.id)
        if c is not None:
            return c
        # iterative post-order to avoid recursion limits
        st = [(n, False)]
        while st:
            m, done = st.pop()
            if m.id in self.cache:
                continue
            if not done:
                st.append((m, True))
                if m.op in ('exp', 'log'):
                    continue
                for a in m.args:
                    if a.sort != 'B' and a.id not in self.cache:
                        st.append((a, False))
            else:
                self.cache[m.id] = self._r(m)
        return self.cache[n.id]

    def _mulfrac(self, x, y):
        n = y[0] if x[0] is None else (x[0] if y[0] is None else x[0] * y[0])
        d = dict(x[1])
        for k, (e, p, pos) in y[1].items():
            if k in d:
                d[k] = (e, d[k][1] + p, pos)
            else:
                d[k] = (e, p, pos)
        return n, d

    def _factor(self, key, e, pw, pos):
        """e**pw as a fraction with e a z3 expr."""
        if pw > 0:
            return self._pow(e, pw), {}
        if not pos and key not in self.side_ids:
            self.side_ids.add(key)
            self.side.append(e != 0)
        return None, {key: (e, -pw, pos)}

    def _r(self, n):
        o = n.op
        if o == 'const':
            return q(n.data), {}
        if o == 'var':
            return self.var(n), {}
        if o == 'toreal':
            return self.r(n.args[0])
        if o == 'sum':
            parts = [(q(n.data[0]), {})] if n.data[0] else []
            for t, k in zip(n.args, n.data[1:]):
                nn, d = self.r(t)
                parts.append((nn if k == 1 else q(k) * nn, d))
            Lc = self._lcm([d for _, d in parts])
            ns = [self._scale(nn, d, Lc) for nn, d in parts]
            return (z3.Sum(ns) if len(ns) > 1 else ns[0]), Lc
        if o == 'prod':
            acc = (None if n.data[0] == 1 else q(n.data[0]), {})
            for t, p in zip(n.args, n.data[1:]):
                nn, d = self.r(t)
                if p > 0:
                    for _ in range(p):
                        acc = self._mulfrac(acc, (nn, d))
                else:
                    f = self._factor(('n', t.id), nn, p, t.pos)
                    acc = self._mulfrac(acc, f)
                    dd = self._den(d)
                    if dd is not None:
                        acc = self._mulfrac(acc, (self._pow(dd, -p), {}))
            return (q(1) if acc[0] is None else acc[0]), acc[1]
        if o == 'exp' and self.opaque:
            v = z3.Real('exp_%d' % n.id)
            self.side.append(v > 0)
            return v, {}
        if o == 'exp':
            return self.expfrac(_linexp(n.args[0]), 1)
        if o == 'log':
            i = self.logmerge.get(n.id, n.id)
            v = z3.Real('log_%d' % i)
            if self.full and ('log', i) not in self.side_ids:
                self.side_ids.add(('log', i))
                nn, d = self.r(n.args[0])
                s = self._cmp(nn, d, None)
                t = self._cmp(nn - self._scale(q(1), {}, d), d, None) if d else None
                t = nn - 1 if t is None else t
                self.side.append((t > 0) == (v > 0))
                self.side.append((t < 0) == (v < 0))
            return v, {}
        if o == 'sqrt':
            y = z3.Real('sqrt_%d' % n.id)
            self.side.append(y >= 0)
            nn, d = self.r(n.args[0])
            self._eqfrac(y * y, nn, d)
            return y, {}
        if o == 'ite':
            c = self.b(n.args[0])
            (a, da), (b_, db) = self.r(n.args[1]), self.r(n.args[2])
            Lc = self._lcm([da, db])
            return z3.If(c, self._scale(a, da, Lc), self._scale(b_, db, Lc)), Lc
        if o == 'max':
            v = z3.Real('max_%d' % n.id)
            self.maxes[n.id] = (n, v)
            if self.full:
                eqs = []
                for a in n.args:
                    na, d = self.r(a)
                    dif = self._cmp(self._scale(v, {}, d) - na, d, None)
                    self.side.append(dif >= 0)
                    eqs.append(dif == 0)
                self.side.append(z3.Or(eqs))
            return v, {}
        if o == 'floor':
            nn, d = self.r(n.args[0])
            dd = self._den(d)
            return z3.ToReal(z3.ToInt(nn / dd if dd is not None else nn)), {}
        if o == 'fn':
            f = z3.Function('fn_' + n.data, *([z3.RealSort()] * (len(n.args) + 1)))
            a = []
            for t in n.args:
                nn, d = self.r(t)
                dd = self._den(d)
                a.append(nn / dd if dd is not None else nn)
            return f(*a), {}
        if o == 'const_inf':
            raise E.Unsupported('non-finite value %s in arithmetic' % n.data)
        raise E.Unsupported('encode ' + o)

    def expfrac(self, p, s):
        acc = (None, {})
        for m, c in sorted(p.items()):
            k = c * s * self.D.get(m, 1)
            if k.denominator != 1:
                raise E.Unsupported('fractional exponent')
            k = int(k)
            if abs(k) > 400:
                raise E.Unsupported('exponent too large')
            b = self.base(m)
            if b[0] == 'var':
                acc = self._mulfrac(acc, self._factor(('x', m), b[1], k, True))
            else:
                _, nn, d, R = b
                if k > 0:
                    for _ in range(k):
                        acc = self._mulfrac(acc, (nn, d))
                else:
                    acc = self._mulfrac(acc, self._factor(('n', R.id), nn, k, True))
                    dd = self._den(d)
                    if dd is not None:
                        acc = self._mulfrac(acc, (self._pow(dd, -k), {}))
        return (q(1) if acc[0] is None else acc[0]), acc[1]

    def var(self, n):
        v = self.vars.get(n.id)
        if v is None:
            z = z3.Real(n.data[0])
            if n.sort == 'I' and n.data[1] is None:
                z = z3.ToReal(z3.Int(n.data[0]))
            v = self.vars[n.id] = (n, z)
            if n.data[1] is not None:
                self.side.append(z3.Or([z == q(c) for c in n.data[1]]))
            elif n.pos:
                self.side.append(z > 0)
        return v[1]

    def _cmp(self, nn, d, _):
        """expression with the sign of nn/den."""
        for k, (e, p, pos) in d.items():
            if not pos and p % 2:
                nn = nn * e
        return nn

    def b(self, n):
        c = self.bcache.get(n.id)
        if c is not None:
            return c
        o = n.op
        if o == 'bconst':
            v = z3.BoolVal(n.data)
        elif o == 'not':
            v = z3.Not(self.b(n.args[0]))
        elif o == 'and':
            v = z3.And([self.b(a) for a in n.args])
        elif o == 'or':
            v = z3.Or([self.b(a) for a in n.args])
        elif o == 'iff':
            v = self.b(n.args[0]) == self.b(n.args[1])
        elif o == 'var':
            v = z3.Bool(n.data[0])
            self.vars[n.id] = (n, v)
        elif o == 'rawne':
            (na, da), (nb, db) = self.r(n.args[0]), self.r(n.args[1])
            Lc = self._lcm([da, db])
            v = self._scale(na, da, Lc) != self._scale(nb, db, Lc)
        elif o in ('lt0', 'eq0'):
            v = None
            if n.id in self.expatoms and (o == 'eq0' or _has_log(self.expatoms[n.id])):
                nn, d = self.expfrac(self.expatoms[n.id], self.scale[n.id])
                v = self._atom(o, nn - self._scale(q(1), {}, d), d)
                if self.full and not _has_log(self.expatoms[n.id]):
                    nn, d = self.r(n.args[0])
                    self.side.append(v == self._atom(o, nn, d))
            if v is None:
                nn, d = self.r(n.args[0])
                v = self._atom(o, nn, d)
        else:
            raise E.Unsupported('encode bool ' + o)
        self.bcache[n.id] = v
        return v

    def _atom(self, o, nn, d):
        if o == 'eq0':
            return nn == 0
        return self._cmp(nn, d, None) < 0

    def _link(self):
        # comparisons of linear forms <-> comparisons of the corresponding exponentials
        for i, p in self.expatoms.items():
            n = E._nodes[i]
            if n.op == 'lt0' and not _has_log(p):
                nn, d = self.expfrac(p, self.scale[i])
                e = nn - self._scale(q(1), {}, d)
                v = self.b(n)
                self.side.append(v == self._atom('lt0', e, d))
                a, da = self.r(n.args[0])
                self.side.append((a == 0) == (e == 0))
        # each exponential base is monotone in its own monomial
        for m, b in list(self.x.items()):
            if b[0] != 'var' or m == ():
                continue
            if len(m) == 1 and m[0][1] == 1:
                n = E._nodes[m[0][0]]
                if n.op == 'log':
                    continue
                if n.id in self.cache:
                    v, d = self.r(n)
                    s = self._cmp(v, d, None)
                    self.side.append((s > 0) == (b[1] > 1))
                    self.side.append((s < 0) == (b[1] < 1))


class Stats:
    queries = 0
    unsat = 0
    sat = 0
    unknown = 0
    time = 0.
    biggest = 0


STATS = Stats()


PROGRESS = [time.time(), 0, 0.]      # last sign of progress, solver at work, longest pause


def progress():
    t = time.time()
    PROGRESS[2] = max(PROGRESS[2], t - PROGRESS[0])
    PROGRESS[0] = t


def _solve(cons, timeout_ms, som):
    g = None
    t0 = time.time()
    STATS.queries += 1
    progress()
    PROGRESS[1] = 1
    try:
        if som:
            simp = [z3.simplify(c, som=True, arith_lhs=False, mul_to_power=True, som_blowup=2000000) for c in cons]
            if any(z3.is_false(c) for c in simp):
                STATS.unsat += 1
                return 'unsat', None
            cons2 = simp
        else:
            cons2 = cons
        s = z3.Solver()
        s.set('timeout', timeout_ms)
        s.add(cons2)
        r = s.check()
        if r == z3.unknown:
            t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat')
            s = t.solver()
            s.set('timeout', timeout_ms)
            s.add(cons2)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
        if r == z3.unsat:
            STATS.unsat += 1
            return 'unsat', None
        if r == z3.sat:
            STATS.sat += 1
            return 'sat', s.model()
        STATS.unknown += 1
        return 'unknown', None
    finally:
        PROGRESS[0] = time.time()
        PROGRESS[1] = 0
        STATS.time += time.time() - t0


def merge_logs(forms, timeout_ms=3000):
    """Find log nodes whose arguments are provably equal; map node id -> representative id."""
    import random
    seen, st, logs = set(), list(forms), []
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'log':
            logs.append(n)
        st.extend(n.args)
    if len(logs) < 2:
        return {}
    rnd = random.Random(7)
    vs = E.all_vars(*logs)
    envs = []
    for _ in range(2):
        envs.append({v.id: (float(rnd.choice(v.data[1])) if v.data[1] else rnd.uniform(.2, 1.5)) for v in vs})
    groups = {}
    for l in logs:
        try:
            k = tuple(round(float(E.evalf(l, e)), 9) for e in envs)
        except Exception:
            continue
        groups.setdefault(k, []).append(l)
    out = {}
    for g in groups.values():
        g = sorted(g, key=lambda n: n.id)
        for l in g[1:]:
            f = E.bnot(E.eq(g[0].args[0], l.args[0]))
            if f is E.FALSE:
                out[l.id] = g[0].id
                continue
            e = Enc([f])
            r, _ = _solve(e.side + e.z, timeout_ms, True)
            if r == 'unsat':
                out[l.id] = g[0].id
    return out


def maybe_sat(forms, timeout_ms=1500):
    """False only if the conjunction is shown unsatisfiable (cheap: used to prune paths)."""
    forms = [E.tobool(f) for f in forms]
    forms = [f for f in forms if f is not E.TRUE]
    if any(f is E.FALSE for f in forms):
        return False
    if not forms:
        return True
    e = Enc(forms)
    if e.maxes or e.x or e.logs:
        e = Enc(forms, full=True)
    r, _ = _solve(e.side + e.z, timeout_ms, False)
    return r != 'unsat'


def check(forms, timeout_ms=20000, want_model=True, ranges=True, quick=False, opaque=False):
    """Decide satisfiability of the conjunction of boolean nodes.

    Returns (result, info): result in unsat/sat/unknown; info for sat: (Enc, z3 model)."""
    forms = [E.tobool(f) for f in forms]
    forms = [f for f in forms if f is not E.TRUE]
    if any(f is E.FALSE for f in forms):
        STATS.queries += 1
        e = z3.Solver()
        e.add(z3.BoolVal(False))
        e.check()
        STATS.unsat += 1
        return 'unsat', None
    # stage 1: identities only
    e = Enc(forms, opaque=opaque)
    r, m = _solve(e.side + e.z, timeout_ms, not opaque)
    if r == 'unsat' or quick:
        return r, None
    lm = merge_logs(forms) if e.logs else {}
    needs = bool(e.maxes) or bool(e.x) or bool(e.logs)
    if lm:
        e1 = Enc(forms, logmerge=lm)
        r, m1 = _solve(e1.side + e1.z, timeout_ms, True)
        if r == 'unsat':
            return r, None
        e, m = e1, m1
    if needs:
        e2 = Enc(forms, full=True, logmerge=lm)
        r2, m2 = _solve(e2.side + e2.z, timeout_ms, False)
        if r2 == 'unsat':
            return r2, None
        if r2 == 'sat':
            r, m, e = r2, m2, e2
        elif r == 'sat':
            pass
    if r == 'sat' and ranges and want_model:
        extra = []
        for v, z in e.vars.values():
            if v.sort != 'B' and v.data[1] is None:
                extra += [z <= 4, z >= (q(Fraction(1, 16)) if v.pos else -4)]
        for b in e.x.values():
            if b[0] == 'var':
                extra += [b[1] >= q(Fraction(1, 8)), b[1] <= 8]
        r3, m3 = _solve(e.side + e.z + extra, min(5000, timeout_ms), False)
        if r3 == 'sat':
            m = m3
    return r, (e, m)


def _zval(m, z):
    v = m.eval(z, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return Fraction(0)


def model_values(info, vars_):
    """Concrete candidate values per variable name; two candidates (arithmetic / exp-derived)."""
    import math
    e, m = info
    arith, expd = {}, {}
    for v in vars_:
        name, dom = v.data
        if v.id in e.vars:
            arith[name] = _zval(m, e.vars[v.id][1])
        mono = ((v.id, 1),)
        if mono in e.x and e.x[mono][0] == 'var':
            x = _zval(m, e.x[mono][1])
            if x > 0:
                expd[name] = e.D.get(mono, 1) * math.log(float(x))
    out = []
    a = dict(expd)
    a.update(arith)
    out.append(a)
    b = dict(arith)
    b.update(expd)
    if b != a:
        out.append(b)
    return out
