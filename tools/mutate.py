#!/usr/bin/env python3
"""Development aid: mutates the functions of coniii that the checks encode and lists the mutants no check notices.

  mutate.py OUT.jsonl [--per N] [--seed S] [--props C01,C02] [--jobs J] [--funcs substring]
"""
import argparse, ast, glob, importlib, json, os, random, shutil, subprocess, sys, tempfile, threading, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [ROOT]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
REPO = '/repo'


def targets(props):
    t = {}
    for f in sorted(glob.glob(ROOT + '/props/C*.py')):
        p = os.path.basename(f)[:-3]
        if props and p not in props:
            continue
        for h in importlib.import_module('props.' + p).R.h:
            for e in h.encodes:
                if not e.startswith('cpp/'):
                    t.setdefault(e, set()).add(p)
    return t


def locate(name):
    """(file, FunctionDef node, source) of a dotted name."""
    parts = name.split('.')
    for k in range(len(parts), 0, -1):
        f = os.path.join(REPO, *parts[:k]) + '.py'
        if os.path.exists(f):
            src = open(f).read()
            node = ast.parse(src)
            for q in parts[k:]:
                for c in ast.walk(node):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name == q:
                        node = c
                        break
                else:
                    return None
            return (f, node, src) if isinstance(node, ast.FunctionDef) else None
    return None


def mutants(node, src):
    """(start, end, replacement, kind)"""
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    out = []
    doc = node.body[0] if ast.get_docstring(node) else None
    skip = set()
    for n in ast.walk(node):
        if isinstance(n, (ast.Raise, ast.Assert)):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('print', 'warn'):
            for m in ast.walk(n):
                skip.add(id(m))
    for n in ast.walk(node):
        if id(n) in skip or n is doc:
            continue
        if isinstance(n, ast.BinOp):
            l, r = txt(n.left), txt(n.right)
            a, z = pos(n)
            for op in {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/', '+'], ast.Div: ['*'], ast.Pow: ['*'],
                       ast.FloorDiv: ['*'], ast.Mod: ['*']}.get(type(n.op), []):
                out.append((a, z, '((%s) %s (%s))' % (l, op, r), 'binop'))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = txt(n.left), txt(n.comparators[0])
            a, z = pos(n)
            for op in {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='],
                       ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'],
                       ast.IsNot: ['is']}.get(type(n.ops[0]), []):
                out.append((a, z, '(%s) %s (%s)' % (l, op, r), 'cmp'))
        elif isinstance(n, ast.BoolOp):
            a, z = pos(n)
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            out.append((a, z, '(' + op.join('(%s)' % txt(v) for v in n.values) + ')', 'bool'))
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                o = ' and ' if isinstance(n.op, ast.And) else ' or '
                out.append((a, z, '(' + o.join('(%s)' % txt(v) for v in rest) + ')', 'bool'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, z = pos(n)
            out.append((a, z, '(%s)' % txt(n.operand), 'unary'))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            a, z = pos(n)
            if isinstance(n.value, bool):
                out.append((a, z, str(not n.value), 'const'))
            elif isinstance(n.value, int):
                out.append((a, z, str(n.value + 1), 'const'))
                if n.value > 0:
                    out.append((a, z, str(n.value - 1), 'const'))
            elif isinstance(n.value, float):
                out.append((a, z, repr(n.value * 2 if n.value else 1.), 'const'))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, z = pos(n.test)
            if isinstance(n, (ast.If, ast.IfExp)):
                out.append((a, z, 'not (%s)' % txt(n.test), 'cond'))
                out.append((a, z, 'True', 'cond'))
                out.append((a, z, 'False', 'cond'))
        elif isinstance(n, (ast.AugAssign,)):
            a, z = pos(n)
            op = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}.get(type(n.op))
            if op:
                out.append((a, z, '%s %s %s' % (txt(n.target), op, txt(n.value)), 'aug'))
            out.append((a, z, 'pass', 'del'))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append(pos(n) + ('pass', 'del'))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript):
            out.append(pos(n) + ('pass', 'del'))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            e = n.slice.elts
            a, z = pos(e[0])[0], pos(e[1])[1]
            out.append((a, z, '%s, %s' % (txt(e[1]), txt(e[0])), 'swap'))
        elif isinstance(n, ast.Call):
            f = n.func
            if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                a, z = pos(n.args[0])[0], pos(n.args[1])[1]
                out.append((a, z, '%s, %s' % (txt(n.args[1]), txt(n.args[0])), 'args'))
            if isinstance(f, ast.Attribute):
                alt = {'max': 'min', 'min': 'max', 'argmax': 'argmin', 'argmin': 'argmax', 'any': 'all', 'all': 'any',
                       'zeros': 'ones', 'ones': 'zeros', 'sum': 'mean', 'mean': 'sum', 'exp': 'expm1', 'append': None,
                       'copy': None, 'floor': 'ceil', 'ceil': 'floor'}.get(f.attr)
                if alt:
                    a, z = pos(f)
                    out.append((z - len(f.attr.encode()), z, alt, 'func'))
                if f.attr == 'copy' and not n.args:
                    out.append(pos(n) + (txt(f.value), 'copy'))
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    a, z = pos(k)
                    rest = [txt(x) for x in n.args] + [txt(x) for x in n.keywords if x is not k]
                    out.append(pos(n) + ('%s(%s)' % (txt(f), ', '.join(rest)), 'kw'))
        elif isinstance(n, (ast.Break, ast.Continue)):
            out.append(pos(n) + ('pass', 'del'))
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            e = n.value.elts
            out.append((pos(e[0])[0], pos(e[1])[1], '%s, %s' % (txt(e[1]), txt(e[0])), 'ret'))
    good = []
    for a, z, r, k in out:
        new = b[:a] + r.encode() + b[z:]
        try:
            if new != b and ast.dump(ast.parse(new)) != ast.dump(ast.parse(b)):
                good.append((a, z, r, k))
        except (SyntaxError, ValueError):
            pass
    return good


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--per', type=int, default=5)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--props', default='')
    ap.add_argument('--funcs', default='')
    ap.add_argument('--jobs', type=int, default=2)
    o = ap.parse_args()
    rnd = random.Random(o.seed)
    todo, used = [], set()
    for name, ps in sorted(targets(set(filter(None, o.props.split(',')))).items()):
        if o.funcs and o.funcs not in name:
            continue
        t = locate(name)
        if t is None:
            print('not found', name, flush=True)
            continue
        f, node, src = t
        ms = [m for m in mutants(node, src) if (f, m[:3]) not in used]
        rnd.shuffle(ms)
        pick = []
        lines_used = {}
        for m in ms:                # spread over lines
            ln = src.encode()[:m[0]].count(b'\n')
            if lines_used.get(ln, 0) < 1 + len(pick) // 4:
                pick.append(m)
                lines_used[ln] = lines_used.get(ln, 0) + 1
            if len(pick) >= o.per:
                break
        for m in pick:
            used.add((f, m[:3]))
            todo.append((name, sorted(ps), f, src, m))
    rnd.shuffle(todo)
    print(len(todo), 'mutants', flush=True)
    lock = threading.Lock()
    fo = open(o.out, 'a')

    def job():
        d = tempfile.mkdtemp(prefix='vf_mut_')
        w = os.path.join(d, 'repo')
        shutil.copytree(REPO, w, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        try:
            while True:
                with lock:
                    if not todo:
                        return
                    name, ps, f, src, (a, z, r, k) = todo.pop()
                rel = os.path.relpath(f, REPO)
                b = src.encode()
                open(os.path.join(w, rel), 'wb').write(b[:a] + r.encode() + b[z:])
                res, t0 = {}, time.time()
                for p in ps:
                    try:
                        q = subprocess.run([ROOT + '/check', p], capture_output=True, text=True, timeout=900, env=dict(
                            os.environ, VF_REPO=w, VF_REPLAY_DIR=d + '/rp', VF_FAILFAST='1'))
                        ls = [l[:300] for l in q.stdout.splitlines() if l.startswith(('# ', 'ERROR'))][:2]
                        res[p] = (q.returncode, ls)
                    except subprocess.TimeoutExpired:
                        res[p] = (9, ['timeout'])
                    if res[p][0] == 1:
                        break
                open(os.path.join(w, rel), 'wb').write(b)
                rec = {'f': name, 'line': b[:a].count(b'\n') + 1, 'kind': k, 'old': b[a:z].decode()[:200], 'new': r[:200],
                       'text': b.split(b'\n')[b[:a].count(b'\n')].decode().strip(), 'killed': any(v[0] == 1 for v in res.values()), 'res': res, 't': round(time.time() - t0, 1)}
                with lock:
                    fo.write(json.dumps(rec) + '\n')
                    fo.flush()
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=job) for _ in range(o.jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
