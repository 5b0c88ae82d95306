"""Runs a property's harnesses, replays counterexamples on the real code, writes evidence."""
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

from . import expr as E
from . import enc
from .engine import (Engine, run_concrete, SymViolation, Unsupported, BoundExceeded, EngineError, VERIF, Infeasible,
                     Stalled, NO_END)
from .lift import Lifter, REPO

PY = sys.executable


def env_real():
    e = dict(os.environ)
    e['PYTHONPATH'] = REPO
    e.setdefault('CONDA_PREFIX', '/usr')
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['MPLBACKEND'] = 'Agg'
    e['OMP_NUM_THREADS'] = '1'
    return e


class Worker:
    """Subprocess running harnesses concretely on the real (unlifted) code."""

    def __init__(self, prop):
        self.prop = prop
        self.p = None
        self.tmp = tempfile.mkdtemp(prefix='vf_nb_')

    def start(self):
        e = env_real()
        e['NUMBA_CACHE_DIR'] = self.tmp
        self.p = subprocess.Popen([PY, os.path.join(VERIF, 'run.py'), 'worker'], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=self.tmp, text=True,
                                  bufsize=1, preexec_fn=lambda: resource.setrlimit(
                                      resource.RLIMIT_DATA, (6 << 30, 6 << 30)))

    def call(self, req, timeout=240):
        import select
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps(req) + '\n')
        self.p.stdin.flush()
        t0 = time.time()
        while time.time() - t0 < timeout:
            r, _, _ = select.select([self.p.stdout], [], [], 1.)
            if r:
                line = self.p.stdout.readline()
                if not line:
                    break
                if line.startswith('@@'):
                    return json.loads(line[2:])
        self.p.kill()
        self.p = None
        return {'status': 'hang', 'msg': 'no answer within %ds' % timeout}

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
        shutil.rmtree(self.tmp, ignore_errors=True)


def _enc(v):
    return ['Q', v.numerator, v.denominator] if isinstance(v, Fraction) else v


def _dec(v):
    return v[1] / v[2] if isinstance(v, list) else v


def _find(reg, name):
    for h in reg.h:
        if h.name == name:
            return h
    raise KeyError(name)


def worker(registry):
    real_stdout = os.fdopen(os.dup(1), 'w', buffering=1)
    sys.stdout = open(os.devnull, 'w')
    sys.path.insert(0, REPO)
    for line in sys.stdin:
        req = json.loads(line)
        out = {'status': 'error', 'msg': ''}
        try:
            h = _find(registry(req['prop']), req['harness'])
            vals = {k: _dec(v) for k, v in req['values'].items()}
            st, msg, ctx = run_concrete(h, vals, req.get('seed', 0), getattr(h, 'tol', 1e-6), amp=req.get('amp', 1.))
            out = {'status': st, 'msg': msg, 'used': {k: (v if isinstance(v, (int, float, bool)) else float(v))
                                                     for k, v in ctx.used.items()}}
        except BaseException as e:
            out = {'status': 'error', 'msg': traceback.format_exc()[-1500:]}
        real_stdout.write('@@' + json.dumps(out) + '\n')


def replay(path, registry):
    d = json.load(open(path))
    if d.get('kind') == 'special':
        mod = __import__('props.' + d['property'], fromlist=['x'])
        return mod.replay(d)
    w = Worker(d['property'])
    try:
        r = w.call({'prop': d['property'], 'harness': d['harness'], 'values': d['values'], 'seed': d.get('seed', 0)})
    finally:
        w.close()
    print(json.dumps({'harness': d['harness'], 'expected': d.get('label'), 'result': r['status'], 'msg': r['msg']},
                     indent=1))
    return 1 if r['status'] in ('fail', 'hang') else 0


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == prop]


def write_replay(prop, rec):
    d = os.environ.get('VF_REPLAY_DIR') or os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    nm = prop + '_' + hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10] + '.json'
    p = os.path.join(d, nm)
    json.dump(rec, open(p, 'w'), indent=1)
    return p


def confirm(w, prop, h, viol, seed):
    """Replay candidate values on the real code; returns a replay record or None."""
    cands = list(viol.values or [{}])
    msgs = []
    tries = [({k: _enc(v) for k, v in c.items()}, seed, 1.) for c in cands]
    # the solver's discrete choices with continuous inputs perturbed / redrawn
    for k in range(4):
        for c in cands[:1]:
            d = {}
            for n, v in c.items():
                if isinstance(v, bool) or (isinstance(v, Fraction) and v.denominator == 1 and n.startswith('rng') is
                                           False and abs(v) < 50 and k % 2 == 0):
                    d[n] = _enc(v)
                elif k < 2:
                    d[n] = _enc(v)
            import random
            rnd = random.Random(seed * 100 + k)
            for n, v in d.items():
                fv = _dec(v)
                if not isinstance(fv, bool) and not float(fv).is_integer():
                    d[n] = fv + rnd.uniform(-1e-3, 1e-3)
            tries.append((d, seed + k, 1.))
    # the counterexample and random values of other magnitude
    tries += [({k: _enc(v) for k, v in c.items()}, seed, a) for c in cands[:2] for a in (3., -1., 6., -4., 20., -20.)]
    for k in range(20):
        ints = {n: _enc(v) for n, v in cands[0].items() if isinstance(v, bool) or (
            isinstance(v, Fraction) and n in viol.discrete)}
        tries.append((ints, seed + 10 + k, (1., 1., 3., 6., 20.)[k % 5]))
    for k in range(120):
        tries.append(({}, seed + 50 + k, (1., 1., 3., 6., 20.)[k % 5]))
    skipped = 0
    for i, (vals, sd, amp) in enumerate(tries):
        if i - skipped >= len(tries) - 100:
            break                               # 20 random runs within the assumptions
        r = w.call({'prop': prop, 'harness': h.name, 'values': vals, 'seed': sd, 'amp': amp}, HANG if viol.label == NO_END else 240)
        if r['status'] == 'fail':
            return {'property': prop, 'harness': h.name, 'label': viol.label, 'values': r.get('used') or vals,
                    'seed': sd, 'observed': r['msg']}
        msgs.append(r['status'] + ':' + r['msg'][-300:])
        skipped += r['status'] == 'skip'
        if r['status'] == 'hang':
            return {'property': prop, 'harness': h.name, 'label': viol.label, 'values': vals, 'seed': sd,
                    'observed': 'the real code does not terminate on this input'}
    viol.msgs = msgs
    return None


def run_symbolic(h, tier, deadline):
    """One harness, in a child process: symbolic execution and solver verdicts. Returns a picklable record."""
    t0 = time.time()
    E.reset()
    enc._poly_cache.clear()
    S = enc.STATS
    S.queries = S.unsat = S.sat = S.unknown = 0
    S.time = 0.
    out = {'viol': None, 'error': None}
    eng = None
    try:
        eng = Engine(h, Lifter(), tier, min(deadline, t0 + getattr(h, 'budget', 400 if tier == 'quick' else 1800)))
        if hasattr(h, 'max_paths'):
            eng.max_paths = h.max_paths
        eng.run()
        if eng.checks == 0:
            out['error'] = '%s: no assertion was reached' % h.name
    except SymViolation as v:
        out['viol'] = {'label': v.label, 'info': v.info, 'values': v.values,
                       'discrete': {n for n, x in eng.ctx.vars.items() if x.data[1] is not None or x.sort == 'B'}}
    except (Unsupported, BoundExceeded, EngineError) as e:
        out['error'] = '%s: %s: %s\n%s' % (h.name, type(e).__name__, e, traceback.format_exc()[-1200:])
        out['reach'] = getattr(e, 'reach', None)
        out['discrete'] = {n for n, x in eng.ctx.vars.items() if x.data[1] is not None or x.sort == 'B'} if eng else set()
    except BaseException as e:
        out['error'] = '%s: internal %r\n%s' % (h.name, e, traceback.format_exc()[-1800:])
    out['stats'] = (S.queries, S.unsat, S.sat, S.unknown, S.time)
    if eng is not None:
        out['per'] = {'harness': h.name, 'bound': h.bound, 'paths': eng.paths, 'decisions': eng.decisions,
                      'longest_pause_s': round(enc.PROGRESS[2], 1), 'goals': eng.checks, 'goals_closed_by_rewriting': eng.trivial, 'queries': S.queries,
                      'solver_s': round(S.time, 3), 'wall_s': round(time.time() - t0, 2), 'samples': eng.samples,
                      'nonzero_denominators_assumed': len(eng.div_nodes)}
    return out


def die_with(parent):
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    if os.getppid() != parent:
        os._exit(1)


STALL, HANG, MEMORY = 180, 100, 3 << 30


def watch(signum, frame):
    if enc.PROGRESS[1]:
        return
    with open('/proc/self/statm') as f:
        rss = int(f.read().split()[1]) * 4096
    if rss > MEMORY and not MEMORY_FREE[0]:
        raise Stalled('memory grows beyond %d MB' % (MEMORY >> 20))
    if time.time() - enc.PROGRESS[0] > STALL:
        enc.PROGRESS[0] = time.time()
        raise Stalled('no progress within %d s' % STALL)


MEMORY_FREE = [False]


def spawn(h, tier, deadline):
    r, w = os.pipe()
    parent = os.getpid()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            die_with(parent)
            signal.signal(signal.SIGALRM, watch)
            signal.setitimer(signal.ITIMER_REAL, 2, 2)
            MEMORY_FREE[0] = tier != 'quick'
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                import pickle
                pickle.dump(run_symbolic(h, tier, deadline), f)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def collect(pid, fd, name):
    import pickle
    with os.fdopen(fd, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return {'viol': None, 'error': name + ': the symbolic run died (out of memory?)', 'stats': (0, 0, 0, 0, 0.)}


def check(prop, reg, tier, only=None):
    import concurrent.futures as cf
    import threading
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = float(os.environ.get('VF_BUDGET', '700' if tier == 'quick' else '7200'))
    deadline = t0 + budget
    violations, errors, per = [], [], []
    known = known_findings(prop)
    encodes, bounds = {}, []
    validated = 0
    specials = getattr(reg, 'specials', [])
    S = enc.STATS
    tot = [0, 0, 0, 0, 0.]
    tl, workers, wl = threading.local(), [], threading.Lock()
    ncpu = max(1, min(8, os.cpu_count() or 1))

    def worker_():
        if not hasattr(tl, 'w'):
            tl.w = Worker(prop)
            with wl:
                workers.append(tl.w)
        return tl.w

    def finish(h, out):
        """Replay / validate on the real implementation."""
        v, e = [], []
        ok = 0
        w = worker_()
        if out['viol'] is not None:
            d = out['viol']
            viol = SymViolation(d['label'], d['info'], d['values'])
            viol.discrete = d['discrete']
            if viol.label == NO_END and violations:
                return v, e, ok         # one that does not end has been found: no time for others
            rec = confirm(w, prop, h, viol, seed)
            if rec is None:
                e.append('%s: counterexample for "%s" did not reproduce on the real code (%s)\n%s' % (
                    h.name, viol.label, viol.msgs[:2], viol.info or ''))
            else:
                v.append(rec)
                if viol.label == NO_END:
                    violations.append(rec)
                    v.remove(rec)
        elif out['error'] is None:
            want = getattr(h, 'validate', 1)
            for k in range(want + 40):
                if ok + len(v) + len(e) >= want:
                    break                       # others only replace runs outside the assumptions
                r = w.call({'prop': prop, 'harness': h.name, 'values': {}, 'seed': seed * 1000 + k})
                if r['status'] == 'fail':
                    v.append({'property': prop, 'harness': h.name, 'label': 'the symbolic run discharged every goal '
                              'but the compiled code disagrees', 'values': r.get('used', {}), 'seed': seed * 1000 + k,
                              'observed': r['msg']})
                elif r['status'] == 'ok':
                    ok += 1
                elif r['status'] in ('error', 'hang'):
                    e.append('%s: validation run: %s' % (h.name, r['msg']))
        else:
            rec = None
            if out.get('reach'):
                # not decided symbolically; the real code may still fail on inputs that lead here
                viol = SymViolation('inputs that reach: ' + out['error'].split('\n')[0][:200], None, out['reach'])
                viol.discrete = out['discrete']
                rec = confirm(w, prop, h, viol, seed)
            if rec is not None:
                v.append(rec)
            else:
                e.append(out['error'])
        return v, e, ok

    sel = [h for h in reg.h if tier in h.tiers and not (only and only not in h.name)]
    sel.sort(key=lambda h: -getattr(h, 'cost', 0))
    sys.stdout.flush()
    try:
        import select
        todo, live, futs = list(sel), {}, []
        pool = cf.ThreadPoolExecutor(min(3, max(1, len(sel))))
        # children are forked before any thread is started
        pend = []
        while todo or live:
            while todo and len(live) < ncpu:
                h = todo.pop(0)
                pid, fd = spawn(h, tier, deadline)
                live[fd] = (h, pid)
            rs, _, _ = select.select(list(live), [], [], 5.)
            for fd in rs:
                h, pid = live.pop(fd)
                out = collect(pid, fd, h.name)
                for i, x in enumerate(out['stats']):
                    tot[i] += x
                if 'per' in out:
                    per.append(out['per'])
                for f in h.encodes:
                    encodes[f] = 1
                if h.bound and h.bound not in bounds:
                    bounds.append(h.bound)
                if os.environ.get('VF_VERBOSE'):
                    p = out.get('per', {})
                    print('%-60s %6.2fs %s %s' % (h.name, p.get('wall_s', 0), json.dumps({k: p.get(k) for k in (
                        'paths', 'goals', 'queries', 'solver_s', 'longest_pause_s')}), 'CEX' if out['viol'] else 'ERR' if out['error'] else ''),
                        flush=True)
                if out['viol'] is not None and os.environ.get('VF_FAILFAST'):
                    pend.append((h, out))       # development aid: the first counterexample ends the run
                    todo = []
                    for fd2, (h2, pid2) in live.items():
                        os.kill(pid2, 9)
                        os.close(fd2)
                        os.waitpid(pid2, 0)
                    live = {}
                    pend = pend[-1:]
                    break
                if todo:
                    pend.append((h, out))       # keep the process single-threaded while forking
                else:
                    futs += [pool.submit(finish, *x) for x in pend] + [pool.submit(finish, h, out)]
                    pend = []
        futs += [pool.submit(finish, *x) for x in pend]
        for f in futs:
            v, e, ok = f.result()
            violations += v
            errors += e
            validated += ok
        pool.shutdown()
        for sp in specials:
            if only and only not in sp.__name__:
                continue
            ht = time.time()
            try:
                r = sp(tier, seed)
                per.append(r['info'])
                violations += r.get('violations', [])
                errors += r.get('errors', [])
                validated += r.get('validated', 0)
                for f in r.get('encodes', ()):
                    encodes[f] = 1
                for b in r.get('bounds', ()):
                    if b not in bounds:
                        bounds.append(b)
            except Exception as e:
                errors.append('%s: internal %s\n%s' % (sp.__name__, e, traceback.format_exc()[-2500:]))
            if os.environ.get('VF_VERBOSE'):
                print('%-60s %6.2fs' % (sp.__name__, time.time() - ht), flush=True)
    finally:
        for w in workers:
            w.close()
    tot[0] += S.queries
    tot[1] += S.unsat
    tot[2] += S.sat
    tot[3] += S.unknown
    tot[4] += S.time
    new = []
    for v in violations:
        k = next((k for k in known if k['harness'] == v['harness'] and k['match'] in (v['label'] + ' | ' + v['observed'])),
                 None)
        if k is not None:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else:
            new.append(v)
    cov = {
        'explanation': 'Symbolic execution of the current /repo source; each goal is decided by z3 for all inputs '
                       'within the stated bounds. Counts below are from this run.',
        'functions_encoded': sorted(encodes),
        'bounds': bounds,
        'paths': sum(p.get('paths', 0) for p in per),
        'states': sum(p.get('paths', 0) for p in per),
        'transitions': sum(p.get('decisions', 0) for p in per),
        'obligations': sum(p.get('goals', 0) for p in per),
        'queries': tot[0], 'queries_unsat': tot[1], 'queries_sat': tot[2], 'queries_unknown': tot[3],
        'solver_s': round(tot[4], 3),
        'traces_validated_against_impl': validated,
        'harnesses': per,
        'samples': [s for p in per for s in p.get('samples', [])][:8],
        'errors': [e[:300] for e in errors],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ASSUMPTIONS + list(getattr(reg, 'assumptions', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    for v in new:
        p = write_replay(prop, v)
        print('# %s: %s -> %s' % (v['harness'], v['label'], v['observed'][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    for e in errors:
        print('ERROR ' + e)
    print('%s %s: %d harnesses, %d goals, %d queries (%d unsat), %.1fs solver, %.1fs wall, %d violations, %d errors' % (
        prop, tier, len(per), cov['obligations'], tot[0], tot[1], tot[4], time.time() - t0, len(new), len(errors)))
    if new:
        return 1
    return 2 if errors else 0


ASSUMPTIONS = [
    'arithmetic is exact: floats are read as rationals and numpy/numba float64 rounding, overflow and fixed-width '
    'integer wrap-around are outside the model',
    'numpy, scipy, numba and multiprocess are replaced by symbolic stand-ins of their documented behaviour; numba '
    'compilation is trusted except for the concrete validation runs',
    'denominators that appear in the code are assumed non-zero unless a harness proves it',
    'random generators are nondeterministic: every draw ranges over all values of its support',
]
