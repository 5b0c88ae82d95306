"""Symbolic execution of textual LLVM IR.

Addresses and integers are concrete wherever they decide control or memory layout; data (doubles, spins) may be
symbolic terms of vf.expr.  Concrete integers are kept modulo 2^width, symbolic ones as mathematical integers.
Branches and addresses that depend on symbolic data fork through the active engine.
"""
import bisect
import re
import struct
from fractions import Fraction

from . import expr as E
from .expr import Sym, Unsupported


class Fault(Exception):
    """The program accessed memory it does not own, or failed one of its own assertions."""


TOK = re.compile(r'''\s+|(?P<t>c"(?:[^"])*"|[%@](?:"[^"]*"|[-\w.$]+)|!"[^"]*"|![-\w.]*|"[^"]*"|\#\d+|
                 -?\d+\.\d+e[+-]\d+|0x[0-9A-FKLMH]+|-?\d+|[A-Za-z_][\w.]*|\.\.\.|.)''', re.X)


def toks(s):
    return [m.group('t') for m in TOK.finditer(s) if m.group('t') is not None]


# types: ('i', bits) ('f', 64|32) ('p',) ('a', n, t) ('s', [t], packed) ('v',) ('n', name)
class Module:
    def __init__(self, text):
        self.types, self.funcs, self.parsed = {}, {}, {}
        self.globals, self.addr, self.names = {}, {}, {}
        self.next = 0x10000
        lines = text.split('\n')
        i = 0
        gl = []
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                nm, d = ln.split(' = type ', 1)
                self.types[nm] = d
            elif ln.startswith('@') and ' = ' in ln:
                gl.append(ln)
            elif ln.startswith('define '):
                j = i
                while lines[j] != '}':
                    j += 1
                t = toks(ln)
                nm = next(x for x in t if x.startswith('@'))
                self.funcs[nm] = lines[i:j]
                i = j
            i += 1
        self._t = {}
        for nm in list(self.funcs):
            self._place(nm, 16)
        defs = []
        for ln in gl:
            nm, d = ln.split(' = ', 1)
            t = toks(d)
            k = 0
            while t[k] not in ('global', 'constant', 'alias'):
                k += 1
            if t[k] == 'alias':
                self.globals[nm] = ('alias', t[-1])
                continue
            p = Parser(self, t, k + 1)
            ty = p.type()
            sz = self.size(ty)
            self._place(nm, sz)
            self.globals[nm] = (ty, sz)
            if 'external' not in t[:k]:
                defs.append((nm, ty, p))
        for nm, d in list(self.globals.items()):
            if d[0] == 'alias':
                self.addr[nm] = self.addr[d[1]]
                if d[1] in self.funcs:
                    self.funcs[nm] = self.funcs[d[1]]
        self.init = []
        for nm, ty, p in defs:
            self.init.append((self.addr[nm], ty, p.constant(ty)))

    def _place(self, nm, sz):
        self.addr[nm] = self.next
        self.names[self.next] = nm
        self.next += (sz + 47) // 16 * 16

    def address(self, nm):
        if nm not in self.addr:
            self._place(nm, 16)
        return self.addr[nm]

    def named(self, nm):
        if nm not in self._t:
            self._t[nm] = Parser(self, toks(self.types[nm]), 0).type()
        return self._t[nm]

    def align(self, t):
        k = t[0]
        if k == 'n':
            return self.align(self.named(t[1]))
        if k == 'a':
            return self.align(t[2])
        if k == 's':
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])
        return max(1, self.size(t))

    def size(self, t):
        k = t[0]
        if k == 'i':
            return max(1, t[1] // 8)
        if k == 'f':
            return t[1] // 8
        if k == 'p':
            return 8
        if k == 'a':
            return t[1] * self.size(t[2])
        if k == 'n':
            return self.size(self.named(t[1]))
        if k == 's':
            return self.offsets(t)[1]
        raise Unsupported('size of %s' % (t,))

    def offsets(self, t):
        o, out = 0, []
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            o = (o + a - 1) // a * a
            out.append(o)
            o += self.size(x)
        a = self.align(t)
        return out, (o + a - 1) // a * a

    def field(self, t, ix):
        """Offset and type of element ix (concrete) of an aggregate."""
        if t[0] == 'n':
            t = self.named(t[1])
        if t[0] == 's':
            return self.offsets(t)[0][ix], t[1][ix]
        return ix * self.size(t[2]), t[2]

    def function(self, nm):
        if nm not in self.parsed:
            self.parsed[nm] = parse_function(self, self.funcs[nm])
        return self.parsed[nm]


ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext', 'noalias',
         'returned', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself', 'allocptr', 'nuw', 'nsw', 'exact', 'inbounds',
         'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'inrange', 'disjoint',
         'local_unnamed_addr', 'unnamed_addr', 'dso_local', 'internal', 'hidden', 'linkonce_odr', 'weak_odr', 'allocalign',
         'private', 'noreturn', 'fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail', 'dead_on_unwind', 'writable', 'atomic'}
PATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'captures', 'initializes', 'range', 'elementtype'}


class Parser:
    def __init__(self, mod, t, p=0):
        self.m, self.t, self.p = mod, t, p

    def peek(self, k=0):
        return self.t[self.p + k] if self.p + k < len(self.t) else None

    def next(self):
        self.p += 1
        return self.t[self.p - 1]

    def take(self, x):
        if self.peek() == x:
            self.p += 1
            return True
        return False

    def expect(self, x):
        if not self.take(x):
            raise Unsupported('IR: expected %r near %s' % (x, ' '.join(self.t[max(0, self.p - 5):self.p + 8])))

    def skip(self):
        while True:
            x = self.peek()
            if x in ATTRS:
                self.p += 1
            elif x in PATTRS and (self.peek(1) == '(' or x == 'align'):
                self.p += 1
                if self.take('('):
                    d = 1
                    while d:
                        y = self.next()
                        d += (y == '(') - (y == ')')
                else:
                    self.p += 1
            else:
                return

    def type(self):
        x = self.next()
        if x == 'ptr':
            return ('p',)
        if x == 'void':
            return ('v',)
        if x == 'double':
            return ('f', 64)
        if x == 'float':
            return ('f', 32)
        if x == 'metadata' or x == 'label' or x == 'token':
            return ('m',)
        if x == 'opaque':
            return ('i', 8)
        if re.fullmatch(r'i\d+', x):
            return ('i', int(x[1:]))
        if x == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('a', n, t)
        if x == '{' or x == '<':
            packed = x == '<'
            if packed:
                if self.peek() != '{':
                    raise Unsupported('IR: vector type')
                self.next()
            ts = []
            while not self.take('}'):
                ts.append(self.type())
                self.take(',')
            if packed:
                self.expect('>')
            return ('s', ts, packed)
        if x.startswith('%'):
            return ('n', x)
        raise Unsupported('IR: type %r near %s' % (x, ' '.join(self.t[max(0, self.p - 5):self.p + 5])))

    def constant(self, ty):
        """Constant of type ty; aggregates as tuples, 0 for zeroinitializer."""
        x = self.next()
        k = ty[0]
        if x == 'zeroinitializer':
            return None
        if x in ('undef', 'poison'):
            return UNDEF
        if x == 'null':
            return 0
        if x == 'true':
            return True
        if x == 'false':
            return False
        if x.startswith('c"'):
            b = x[2:-1]
            out = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), b)
            return tuple(ord(c) for c in out)
        if x in ('[', '{', '<'):
            out = []
            if x == '<':
                self.expect('{')
            end = {'[': ']', '{': '}', '<': '}'}[x]
            while not self.take(end):
                t = self.type()
                out.append(self.constant(t))
                self.take(',')
            if x == '<':
                self.expect('>')
            return tuple(out)
        if x.startswith('@'):
            return self.m.address(x)
        if x == 'getelementptr':
            self.skip()
            self.expect('(')
            base = self.type()
            self.expect(',')
            self.skip()
            self.type()
            a = self.constant(('p',))
            ix = []
            while self.take(','):
                self.skip()
                t = self.type()
                ix.append(self.constant(t))
            self.expect(')')
            return gep(self.m, base, a, [sgn(i, 64) for i in ix])
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            v = self.constant(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return v & ((1 << 8 * self.m.size(t2)) - 1) if t2[0] == 'i' else v
        if x in ('add', 'sub', 'mul'):
            self.skip()
            self.expect('(')
            t = self.type()
            a = self.constant(t)
            self.expect(',')
            self.type()
            b = self.constant(t)
            self.expect(')')
            r = a + b if x == 'add' else a - b if x == 'sub' else a * b
            return r & ((1 << t[1]) - 1)
        if k == 'f':
            if x.startswith('0x'):
                return E.L(struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0])
            return E.L(float(x))
        if k == 'i' and re.fullmatch(r'-?\d+', x):
            if ty[1] == 1:
                return bool(int(x))
            return int(x) & ((1 << ty[1]) - 1)
        raise Unsupported('IR: constant %r of %s' % (x, ty))

    def value(self, ty):
        """Operand: ('%', name) for locals, ('c', v) for constants."""
        self.skip()
        x = self.peek()
        if x.startswith('%'):
            self.p += 1
            return ('%', x)
        if ty[0] == 'm':
            self.p += 1
            return ('c', None)
        return ('c', self.constant(ty))

    def tv(self):
        self.skip()
        t = self.type()
        return t, self.value(t)


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


def sgn(v, bits):
    return v - (1 << bits) if v >> (bits - 1) & 1 else v


def gep(m, base, a, ix):
    a = a + ix[0] * m.size(base)
    t = base
    for i in ix[1:]:
        if isinstance(i, Sym):
            if t[0] == 'n':
                t = m.named(t[1])
            if t[0] != 'a':
                i = i.__index__()
        o, t = m.field(t, i)
        a = a + o
    return a if isinstance(a, Sym) else a & (2**64 - 1)


def parse_function(m, lines):
    t = toks(lines[0])
    p = Parser(m, t, 1)
    while not p.peek().startswith('@'):
        p.p += 1
    p.p += 1
    p.expect('(')
    params = []
    while not p.take(')'):
        if p.take('...'):
            continue
        p.skip()
        ty = p.type()
        p.skip()
        if p.peek() and p.peek().startswith('%'):
            params.append(p.next())
        else:
            params.append('%%%d' % len(params))
        p.take(',')
    blocks, cur = {}, None
    first = None
    body = lines[1:]
    # join continuation lines
    joined = []
    for ln in body:
        s = ln.split(' ; preds')[0].rstrip() if ln[:1] not in (' ', '') else ln
        if not s.strip() or s.lstrip().startswith(';'):
            continue
        if ln.startswith('   ') and joined and not re.match(r'\s+(%\S+ = |"?\S+"?:)', ln) or (
                joined and joined[-1].rstrip().endswith(('[', ','))) or s.strip() == ']' or s.strip().startswith('] '):
            joined[-1] += ' ' + s.strip()
        else:
            joined.append(s)
    for s in joined:
        mm = re.match(r'^("[^"]*"|[-\w.$]+):', s)
        if mm and not s.startswith(' '):
            cur = blocks['%' + mm.group(1)] = []
            if first is None:
                first = '%' + mm.group(1)
            continue
        if cur is None:
            # entry block is numbered after the parameters
            first = '%%%d' % len(params)
            cur = blocks[first] = []
        cur.append(parse_instr(m, s))
    return params, first, blocks


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc'}


def parse_instr(m, s):
    t = toks(s)
    p = Parser(m, t)
    dst = None
    if len(t) > 1 and t[1] == '=':
        dst = t[0]
        p.p = 2
    p.skip()
    op = p.next()
    if op in BIN:
        p.skip()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        return ('bin', dst, op, ty, a, p.value(ty))
    if op in CAST:
        p.skip()
        ty, a = p.tv()
        p.expect('to')
        return ('cast', dst, op, ty, a, p.type())
    if op == 'fneg':
        p.skip()
        ty, a = p.tv()
        return ('fneg', dst, a)
    if op in ('icmp', 'fcmp'):
        p.skip()
        cc = p.next()
        p.skip()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        return (op, dst, cc, ty, a, p.value(ty))
    if op == 'select':
        p.skip()
        _, c = p.tv()
        p.expect(',')
        ty, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        return ('select', dst, ty, c, a, b)
    if op == 'phi':
        p.skip()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            inc.append((p.next(), v))
            p.expect(']')
            if not p.take(','):
                break
        return ('phi', dst, dict(inc))
    if op == 'br':
        if p.take('label'):
            return ('jmp', p.next())
        _, c = p.tv()
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        return ('br', c, a, p.next())
    if op == 'switch':
        ty, v = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cs = []
        while not p.take(']'):
            t2 = p.type()
            k = p.constant(t2)
            p.expect(',')
            p.expect('label')
            cs.append((k, p.next()))
        return ('switch', v, ty, d, cs)
    if op == 'ret':
        if p.take('void'):
            return ('ret', None)
        return ('ret', p.tv()[1])
    if op == 'load':
        p.skip()
        ty = p.type()
        p.expect(',')
        return ('load', dst, ty, p.tv()[1])
    if op == 'store':
        p.skip()
        ty, v = p.tv()
        p.expect(',')
        return ('store', ty, v, p.tv()[1])
    if op == 'alloca':
        p.skip()
        ty = p.type()
        n = ('c', 1)
        if p.take(',') and p.peek() != 'align':
            n = p.tv()[1]
        return ('alloca', dst, ty, n)
    if op == 'getelementptr':
        p.skip()
        base = p.type()
        p.expect(',')
        a = p.tv()[1]
        ix = []
        while p.take(','):
            if p.peek() and p.peek().startswith('!'):
                break
            ix.append(p.tv())
        return ('gep', dst, base, a, ix)
    if op in ('call', 'invoke'):
        p.skip()
        ty = p.type()
        if p.peek() == '(':             # full function type of a varargs callee
            d = 0
            while True:
                y = p.next()
                d += (y == '(') - (y == ')')
                if d == 0:
                    break
        p.skip()
        f = p.value(('p',)) if not p.peek().startswith('@') else ('@', p.next())
        p.expect('(')
        args = []
        while not p.take(')'):
            p.skip()
            ta = p.type()
            args.append((ta, p.value(ta)))
            p.take(',')
        nxt = None
        if op == 'invoke':
            while p.next() != 'to':
                pass
            p.expect('label')
            nxt = p.next()
        return ('call', dst, ty, f, args, nxt)
    if op == 'unreachable':
        return ('unreachable',)
    if op == 'freeze':
        return ('copy', dst, p.tv()[1])
    if op == 'extractvalue':
        ty, v = p.tv()
        ix = []
        while p.take(','):
            if p.peek().startswith('!'):
                break
            ix.append(int(p.next()))
        return ('extract', dst, v, ix)
    if op == 'insertvalue':
        ty, v = p.tv()
        p.expect(',')
        t2, x = p.tv()
        ix = []
        while p.take(','):
            ix.append(int(p.next()))
        return ('insert', dst, v, x, ix)
    if op == 'atomicrmw':
        p.skip()
        o = p.next()
        a = p.tv()[1]
        p.expect(',')
        ty, v = p.tv()
        return ('rmw', dst, o, ty, a, v)
    return ('raw', op, s.strip())


class Memory:
    def __init__(self):
        self.c = {}             # address -> (size, value)
        self.starts, self.blocks = [], {}

    def copy(self):
        r = Memory()
        r.c = dict(self.c)
        r.starts, r.blocks = list(self.starts), {k: list(v) for k, v in self.blocks.items()}
        return r

    def block(self, a, size):
        bisect.insort(self.starts, a)
        self.blocks[a] = [size, True]

    def where(self, a, size, what):
        i = bisect.bisect_right(self.starts, a) - 1
        if i >= 0:
            s = self.starts[i]
            b = self.blocks[s]
            if a + size <= s + b[0]:
                if not b[1]:
                    raise Fault('%s of freed memory' % what)
                return
        raise Fault('%s outside of allocated memory' % what)

    def wipe(self, a, size):
        c = self.c
        for x in range(a - 7, a + size):
            if x in c:
                s, v = c[x]
                if x + s <= a:
                    continue
                if x >= a and x + s <= a + size:
                    del c[x]
                    continue
                del c[x]
                if isinstance(v, int) and not isinstance(v, bool):
                    for k in range(s):
                        if not a <= x + k < a + size:
                            c[x + k] = (1, v >> 8 * k & 255)

    def store(self, a, size, v):
        self.where(a, size, 'write')
        if a in self.c and self.c[a][0] == size:
            self.c[a] = (size, v)
            return
        self.wipe(a, size)
        self.c[a] = (size, v)

    def load(self, a, size):
        self.where(a, size, 'read')
        x = self.c.get(a)
        if x is not None and x[0] == size:
            return x[1]
        return self.gather(a, size)

    def gather(self, a, size):
        out, parts, k = 0, [], a
        while k < a + size:
            for s in range(k, k - 8, -1):
                x = self.c.get(s)
                if x is not None and s + x[0] > k:
                    break
            else:
                raise Fault('read of uninitialised memory')
            n, v = x
            if isinstance(v, Sym) and v.op == 'const' and n == 8 and v.sort == 'R':
                v = struct.unpack('<Q', struct.pack('<d', float(v.data)))[0]
            if isinstance(v, Sym) or v is UNDEF or isinstance(v, Cat):
                if s < k or s + n > a + size:
                    raise Unsupported('partial read of a symbolic value')
                parts.append((k - a, n, v))
                k += n
                continue
            take = min(s + n, a + size) - k
            w = v >> 8 * (k - s) & ((1 << 8 * take) - 1)
            parts.append((k - a, take, w))
            k += take
        if all(isinstance(v, int) for _, _, v in parts):
            for o, n, v in parts:
                out |= v << 8 * o
            return out
        return Cat(parts)

    def clone(self, d, s, n):
        if n == 0:
            return
        self.where(s, n, 'read')
        self.where(d, n, 'write')
        cells = []
        k = s - 7
        for x in range(s - 7, s + n):
            if x in self.c:
                z, v = self.c[x]
                if x + z <= s:
                    continue
                if x >= s and x + z <= s + n:
                    cells.append((x - s, z, v))
                elif isinstance(v, int):
                    for q in range(z):
                        if s <= x + q < s + n:
                            cells.append((x + q - s, 1, v >> 8 * q & 255))
                else:
                    raise Unsupported('partial copy of a symbolic value')
        self.wipe(d, n)
        for o, z, v in cells:
            self.c[d + o] = (z, v)


class Cat:
    """Several adjacent memory cells read as one integer."""

    def __init__(self, parts):
        self.parts = parts


class Machine:
    """One run of the program; hooks maps external function names to Python functions(machine, args)."""

    def __init__(self, mod, hooks, max_steps=3000000):
        self.m, self.hooks = mod, dict(hooks)
        if not hasattr(mod, 'image'):
            mem = Memory()
            for nm, d in mod.globals.items():
                if d[0] != 'alias':
                    mem.block(mod.addr[nm], max(1, d[1]))
            for a, ty, v in mod.init:
                self._put(mem, a, ty, v)
            mod.image = mem
        self.mem = mod.image.copy()
        self.heap = 0x10000000
        self.soft = False           # join the values at symbolic addresses instead of forking over the addresses
        self.steps, self.max_steps = 0, max_steps

    def _put(self, mem, a, ty, v):
        if ty[0] == 'n':
            return self._put(mem, a, self.m.named(ty[1]), v)
        if v is None:
            for k in range(self.m.size(ty)):
                mem.c[a + k] = (1, 0)
        elif ty[0] in ('a', 's'):
            for k, x in enumerate(v):
                o, t = self.m.field(ty, k)
                self._put(mem, a + o, t, x)
        elif v is not UNDEF:
            mem.c[a] = (self.m.size(ty), int(v) if isinstance(v, bool) else v)

    def alloc(self, size):
        a = self.heap
        self.heap += (size + 63) // 16 * 16
        self.mem.block(a, size)
        return a

    def free(self, a):
        if a == 0:
            return
        b = self.mem.blocks.get(a)
        if b is None or not b[1]:
            raise Fault('free of memory that is not allocated')
        b[1] = False
        for k in [k for k in range(a, a + b[0]) if k in self.mem.c]:
            del self.mem.c[k]

    def call(self, nm, *args):
        return self.run('@' + nm, list(args))

    # --- values
    def conc(self, v, bits=64):
        """Concrete unsigned integer (forks over the values of a symbolic one)."""
        if isinstance(v, Sym):
            if v.sort == 'B':
                return int(bool(v))
            return int(v.__index__()) & ((1 << bits) - 1)
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, int):
            raise Unsupported('concrete integer expected, got %r' % (v,))
        return v

    def sym(self, v, bits):
        if isinstance(v, Sym):
            return v if v.sort != 'B' else E.ite(v, E.ONE, E.ZERO)
        if isinstance(v, bool):
            return E.cst(int(v))
        if not isinstance(v, int):
            raise Unsupported('integer expected, got %r' % (v,))
        return E.cst(sgn(v, bits))

    def norm(self, v, bits):
        if isinstance(v, Sym) and v.op == 'const':
            return int(v.data) & ((1 << bits) - 1)
        return v

    def bin(self, op, ty, a, b):
        if op[0] == 'f':
            if a is UNDEF or b is UNDEF:
                return UNDEF
            a, b = E.L(a), E.L(b)
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if op == 'fdiv':
                return a / b
            raise Unsupported('frem')
        n = ty[1] if ty[0] == 'i' else 64
        if isinstance(a, Cat) or isinstance(b, Cat):
            if op == 'lshr' and isinstance(b, int) and b % 8 == 0:
                ps = [(o - b // 8, s, v) for o, s, v in a.parts if o >= b // 8]
                if ps and ps[0][0] == 0:
                    return self.norm(ps[0][2], n) if len(ps) == 1 else Cat(ps)
            raise Unsupported('arithmetic on packed values')
        if n == 1:
            if isinstance(a, Sym) or isinstance(b, Sym):
                a, b = (E.tobool(E.L(x)) for x in (a, b))
                if op == 'and':
                    return E.band(a, b)
                if op == 'or':
                    return E.bor(a, b)
                if op in ('xor', 'add', 'sub'):
                    return E.bnot(E.eq(a, b))
                raise Unsupported('i1 ' + op)
            a, b = bool(a), bool(b)
            return {'and': a and b, 'or': a or b, 'xor': a != b, 'add': a != b, 'sub': a != b}[op]
        if a is UNDEF or b is UNDEF:
            return UNDEF
        mask = (1 << n) - 1
        if isinstance(a, Sym) or isinstance(b, Sym):
            x, y = self.sym(a, n), self.sym(b, n)
            if op == 'add':
                return self.norm(x + y, n)
            if op == 'sub':
                return self.norm(x - y, n)
            if op == 'mul':
                return self.norm(x * y, n)
            if op == 'shl' and isinstance(b, int):
                return self.norm(x * E.cst(2**b), n)
            if op == 'xor' and isinstance(b, int) and b == mask:
                return self.norm(-x - E.ONE, n)
            if op == 'ashr' and isinstance(b, int):
                return self.norm(E.floordiv(x, E.cst(2**b)), n)
            if op == 'srem' and isinstance(b, int) and sgn(b, n) > 0:
                c = E.cst(sgn(b, n))
                return self.norm(E.ite(E.le(E.ZERO, x), E.mod(x, c), E.neg(E.mod(E.neg(x), c))), n)
            a, b = self.conc(a, n), self.conc(b, n)
        if op == 'add':
            return a + b & mask
        if op == 'sub':
            return a - b & mask
        if op == 'mul':
            return a * b & mask
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return a << b & mask if b < n else UNDEF
        if op == 'lshr':
            return a >> b
        if op == 'ashr':
            return sgn(a, n) >> b & mask
        if op in ('udiv', 'urem'):
            if b == 0:
                raise Fault('division by zero')
            return a // b if op == 'udiv' else a % b
        x, y = sgn(a, n), sgn(b, n)
        if y == 0:
            raise Fault('division by zero')
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == 'sdiv' else x - q * y) & mask

    def cast(self, op, ty, v, to):
        if v is UNDEF:
            return v
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            if op == 'bitcast' and ty[0] != to[0]:
                raise Unsupported('bitcast between integers and floats')
            return v if not isinstance(v, int) else v & ((1 << 8 * self.m.size(to)) - 1)
        n = ty[1]
        if op == 'trunc':
            k = to[1]
            if isinstance(v, Cat):
                o, s, x = v.parts[0]
                if o == 0 and s == k // 8:
                    return self.norm(x, k)
                raise Unsupported('truncation of packed values')
            if k == 1:
                return E.bnot(E.eq(E.mod(v, E.cst(2)), E.ZERO)) if isinstance(v, Sym) else bool(v & 1)
            return v if isinstance(v, Sym) else v & ((1 << k) - 1)
        if op == 'zext':
            if n == 1:
                return E.ite(v, E.ONE, E.ZERO) if isinstance(v, Sym) else int(v)
            if isinstance(v, Sym):
                return v if not bool(E.lt(v, E.ZERO)) else v + E.cst(1 << n)
            return v
        if op == 'sext':
            if n == 1:
                return E.ite(v, E.cst(-1), E.ZERO) if isinstance(v, Sym) else (1 << to[1]) - 1 if v else 0
            return v if isinstance(v, Sym) else sgn(v, n) & ((1 << to[1]) - 1)
        if op == 'sitofp':
            return E.toreal(self.sym(v, n)) if hasattr(E, 'toreal') else self.sym(v, n)
        if op == 'uitofp':
            if isinstance(v, Sym):
                return self.sym(self.cast('zext', ty, v, ('i', 64)), 64)
            return E.cst(int(v))
        if op in ('fptosi', 'fptoui'):
            return self.norm(E.trunc(E.L(v)), to[1])
        if op in ('fpext', 'fptrunc'):
            return v
        raise Unsupported(op)

    def icmp(self, cc, ty, a, b):
        n = ty[1] if ty[0] == 'i' else 64
        if n == 1:
            a, b = (E.L(x) if isinstance(x, Sym) else bool(x) for x in (a, b))
            if isinstance(a, Sym) or isinstance(b, Sym):
                r = E.eq(E.tobool(E.L(a)), E.tobool(E.L(b)))
                if cc == 'eq':
                    return r
                if cc == 'ne':
                    return E.bnot(r)
                raise Unsupported('i1 order')
        if a is UNDEF or b is UNDEF or isinstance(a, Cat) or isinstance(b, Cat):
            raise Unsupported('comparison of undefined or packed values')
        if isinstance(a, Sym) or isinstance(b, Sym):
            x, y = self.sym(a, n), self.sym(b, n)
            if cc == 'eq':
                return E.eq(x, y)
            if cc == 'ne':
                return E.bnot(E.eq(x, y))
            if cc[0] == 's':
                return {'slt': E.lt, 'sle': E.le, 'sgt': lambda p, q: E.lt(q, p), 'sge': lambda p, q: E.le(q, p)}[cc](x, y)
            # unsigned order: values of different sign compare the other way round
            neg = lambda p: E.lt(p, E.ZERO)
            u = lambda p: E.ite(neg(p), p + E.cst(1 << n), p)
            x, y = u(x), u(y)
            return {'ult': E.lt, 'ule': E.le, 'ugt': lambda p, q: E.lt(q, p), 'uge': lambda p, q: E.le(q, p)}[cc](x, y)
        if cc == 'eq':
            return a == b
        if cc == 'ne':
            return a != b
        if cc[0] == 's':
            a, b = sgn(a, n), sgn(b, n)
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[cc[1:]]

    def fcmp(self, cc, a, b):
        a, b = E.L(a), E.L(b)
        k = cc[1:] if cc not in ('ord', 'uno', 'true', 'false') else cc
        if k in ('ord', 'true'):
            return True
        if k in ('uno', 'false'):
            return False
        r = {'eq': lambda: E.eq(a, b), 'ne': lambda: E.bnot(E.eq(a, b)), 'lt': lambda: E.lt(a, b),
             'le': lambda: E.le(a, b), 'gt': lambda: E.lt(b, a), 'ge': lambda: E.le(b, a)}[k]()
        return r

    def lookup(self, a, ty):
        """Integer load from a symbolic address: the value at every address possible on this path."""
        eng = E.CUR.engine
        if a.id in eng.conc:
            c = [eng.conc[a.id]]
        else:
            c = [x for x in eng._int_values(a) if eng.feasible([E.eq(a, E.cst(x))])]
        if not c or len(c) > 64:
            return self.mem.load(self.conc(a), self.m.size(ty))
        vs = [self.sym(self.mem.load(x, self.m.size(ty)), ty[1]) for x in c]
        out = vs[-1]
        for x, v in zip(c[:-1], vs[:-1]):
            out = E.ite(E.eq(a, E.cst(x)), v, out)
        return self.norm(out, ty[1])

    # --- execution
    def run(self, nm, args, depth=0):
        if nm not in self.m.funcs:
            return self.external(nm, args)
        if depth > 200:
            raise Unsupported('recursion')
        params, first, blocks = self.m.function(nm)
        env = dict(zip(params, args))
        allocas = []
        mem = self.mem
        prev, cur = None, first

        def val(o):
            return env[o[1]] if o[0] == '%' else o[1]
        while True:
            blk = blocks[cur]
            i = 0
            if blk[0][0] == 'phi':
                new = []
                while blk[i][0] == 'phi':
                    new.append((blk[i][1], val(blk[i][2][prev])))
                    i += 1
                env.update(new)
            jump = None
            while i < len(blk):
                ins = blk[i]
                i += 1
                self.steps += 1
                op = ins[0]
                if op == 'load':
                    a = val(ins[3])
                    ty = ins[2]
                    if self.soft and isinstance(a, Sym) and ty[0] == 'i':
                        env[ins[1]] = self.lookup(a, ty)
                        continue
                    a = self.conc(a)
                    v = mem.load(a, self.m.size(ty))
                    if ty[0] == 'f' and isinstance(v, int):
                        v = E.L(struct.unpack('<d', struct.pack('<Q', v))[0])
                    elif ty[0] == 'i' and ty[1] == 1:
                        v = bool(v & 1)
                    elif ty[0] in ('i', 'p') and isinstance(v, Sym) and v.sort == 'R' and v.op == 'const':
                        v = struct.unpack('<Q', struct.pack('<d', float(v.data)))[0]
                    env[ins[1]] = v
                elif op == 'store':
                    v = val(ins[2])
                    ty = ins[1]
                    a = self.conc(val(ins[3]))
                    if ty[0] in ('s', 'a', 'n'):
                        raise Unsupported('store of an aggregate')
                    if isinstance(v, bool):
                        v = int(v)
                    elif isinstance(v, Sym) and v.sort == 'B':
                        v = E.ite(v, E.ONE, E.ZERO)
                    if isinstance(v, Cat):
                        mem.where(a, self.m.size(ty), 'write')
                        mem.wipe(a, self.m.size(ty))
                        for o, s, x in v.parts:
                            mem.c[a + o] = (s, x)
                    else:
                        mem.store(a, self.m.size(ty), v)
                elif op == 'gep':
                    ix = []
                    for t, o in ins[4]:
                        v = val(o)
                        n = t[1]
                        ix.append(v if isinstance(v, Sym) and v.sort == 'I' else sgn(self.conc(v, n), n))
                    a = val(ins[3])
                    env[ins[1]] = gep(self.m, ins[2], a if isinstance(a, Sym) else self.conc(a), ix)
                elif op == 'bin':
                    env[ins[1]] = self.bin(ins[2], ins[3], val(ins[4]), val(ins[5]))
                elif op == 'icmp':
                    env[ins[1]] = self.icmp(ins[2], ins[3], val(ins[4]), val(ins[5]))
                elif op == 'br':
                    c = val(ins[1])
                    if c is UNDEF:
                        raise Fault('branch on an undefined value')
                    jump = ins[2] if bool(c) else ins[3]
                    break
                elif op == 'jmp':
                    jump = ins[1]
                    break
                elif op == 'cast':
                    env[ins[1]] = self.cast(ins[2], ins[3], val(ins[4]), ins[5])
                elif op == 'call':
                    f = ins[3]
                    if f[0] == '@':
                        fn = f[1]
                    else:
                        fn = self.m.names.get(self.conc(val(f)))
                        if fn is None:
                            raise Fault('call of something that is not a function')
                    r = self.run(fn, [val(o) for _, o in ins[4]], depth + 1)
                    if ins[1] is not None:
                        env[ins[1]] = r
                    if ins[5] is not None:
                        jump = ins[5]
                        break
                elif op == 'ret':
                    for a in allocas:
                        self.free(a)
                    return None if ins[1] is None else val(ins[1])
                elif op == 'select':
                    c, a, b = val(ins[3]), val(ins[4]), val(ins[5])
                    if isinstance(c, Sym) and c.op != 'bconst':
                        ty = ins[2]
                        if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
                            env[ins[1]] = a
                        elif ty[0] == 'f':
                            env[ins[1]] = E.ite(c, E.L(a), E.L(b))
                        elif ty[0] == 'i' and ty[1] == 1:
                            env[ins[1]] = E.bor(E.band(c, E.tobool(E.L(a))), E.band(E.bnot(c), E.tobool(E.L(b))))
                        elif ty[0] == 'i':
                            env[ins[1]] = E.ite(c, self.sym(a, ty[1]), self.sym(b, ty[1]))
                        else:
                            env[ins[1]] = a if bool(c) else b
                    else:
                        env[ins[1]] = a if bool(c) else b
                elif op == 'fcmp':
                    env[ins[1]] = self.fcmp(ins[2], val(ins[4]), val(ins[5]))
                elif op == 'fneg':
                    env[ins[1]] = -E.L(val(ins[2]))
                elif op == 'alloca':
                    a = self.alloc(self.m.size(ins[2]) * self.conc(val(ins[3])))
                    allocas.append(a)
                    env[ins[1]] = a
                elif op == 'copy':
                    env[ins[1]] = val(ins[2])
                elif op == 'switch':
                    v = val(ins[1])
                    n = ins[2][1]
                    jump = ins[3]
                    for k, lb in ins[4]:
                        c = E.eq(v, E.cst(sgn(int(k), n))) if isinstance(v, Sym) else int(v) == int(k)
                        if bool(c):
                            jump = lb
                            break
                    break
                elif op == 'rmw':
                    a = self.conc(val(ins[4]))
                    old = mem.load(a, self.m.size(ins[3]))
                    env[ins[1]] = old
                    v = val(ins[5])
                    mem.store(a, self.m.size(ins[3]), self.bin(ins[2], ins[3], old, v) if ins[2] != 'xchg' else v)
                elif op == 'extract':
                    v = val(ins[2])
                    for k in ins[3]:
                        v = v[k]
                    env[ins[1]] = v
                elif op == 'insert':
                    env[ins[1]] = _insert(val(ins[2]), val(ins[3]), ins[4])
                elif op == 'unreachable':
                    raise Fault('unreachable code reached')
                else:
                    raise Unsupported('IR instruction %s' % (ins,))
            if self.steps > self.max_steps:
                raise Unsupported('too many steps')
            prev, cur = cur, jump

    def external(self, nm, args):
        b = nm[1:]
        if b in self.hooks:
            return self.hooks[b](self, args)
        mem = self.mem
        if b.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.experimental', 'llvm.dbg')):
            return None
        if b in ('_Znwm', '_Znam', 'malloc'):
            return self.alloc(self.conc(args[0]))
        if b in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free'):
            self.free(self.conc(args[0]))
            return None
        if b.startswith(('llvm.memcpy', 'llvm.memmove')) or b in ('memcpy', 'memmove'):
            mem.clone(self.conc(args[0]), self.conc(args[1]), self.conc(args[2]))
            return args[0]
        if b.startswith('llvm.memset') or b == 'memset':
            a, v, n = (self.conc(x) for x in args[:3])
            if n:
                mem.where(a, n, 'write')
                mem.wipe(a, n)
                v &= 255
                w = int.from_bytes(bytes([v]) * 8, 'little')
                k = 0
                while k < n:
                    s = min(8, n - k)
                    if s == 8 and v == 0:
                        mem.c[a + k] = (8, 0)
                        k += 8
                    else:
                        mem.c[a + k] = (1, v)
                        k += 1
            return args[0]
        if b == 'exp' or b.startswith('llvm.exp.'):
            return E.exp(E.L(args[0]))
        if b == 'log' or b.startswith('llvm.log.'):
            return E.log(E.L(args[0]))
        if b == 'sqrt' or b.startswith('llvm.sqrt.'):
            return E.sqrt(E.L(args[0]))
        if b == 'fabs' or b.startswith('llvm.fabs'):
            return abs(E.L(args[0]))
        if b.startswith('llvm.fmuladd') or b.startswith('llvm.fma.'):
            return E.L(args[0]) * E.L(args[1]) + E.L(args[2])
        if b.startswith(('llvm.maxnum', 'llvm.minnum')) or b in ('fmax', 'fmin'):
            x, y = E.L(args[0]), E.L(args[1])
            return E.ite(E.le(x, y), *((y, x) if 'max' in b else (x, y)))
        m = re.match(r'llvm\.([us])(max|min)\.i(\d+)', b)
        if m:
            n = int(m.group(3))
            c = self.icmp(m.group(1) + ('gt' if m.group(2) == 'max' else 'lt'), ('i', n), args[0], args[1])
            if isinstance(c, Sym) and c.op != 'bconst':
                return E.ite(c, self.sym(args[0], n), self.sym(args[1], n))
            return args[0] if bool(c) else args[1]
        if b.startswith('llvm.abs.'):
            n = int(b.rsplit('i', 1)[1])
            if isinstance(args[0], Sym):
                return abs(args[0])
            return abs(sgn(args[0], n)) & ((1 << n) - 1)
        if b.startswith('llvm.usub.sat'):
            return max(0, self.conc(args[0]) - self.conc(args[1]))
        if b == 'pow' or b.startswith(('llvm.pow.', 'llvm.powi.')):
            return E.power(E.L(args[0]), self.sym(args[1], 32) if isinstance(args[1], int) else E.L(args[1]))
        if b == 'bcmp' or b == 'memcmp':
            p, q, n = (self.conc(x) for x in args)
            for k in range(n):
                if mem.load(p + k, 1) != mem.load(q + k, 1):
                    return 1
            return 0
        if 'assert_fail' in b or b == 'abort' or b == '_ZSt9terminatev':
            raise Fault('failed assertion (index out of range)')
        if 'throw' in b:
            raise Fault('exception ' + b)
        if b.startswith('_ZNSt13random_device'):
            return 12345
        if b == '__cxa_guard_acquire':      # a local static: initialise it once
            return 0 if self.conc(mem.load(self.conc(args[0]), 1)) & 1 else 1
        if b in ('__cxa_guard_release', '__cxa_guard_abort'):
            mem.store(self.conc(args[0]), 1, int(b.endswith('release')))
            return None
        if b in ('__cxa_atexit', '__cxa_thread_atexit'):
            return 0
        if b == '__gxx_personality_v0' or b.startswith('__cxa'):
            raise Fault(b)
        raise Unsupported('external function ' + b)


def _insert(v, x, ix):
    v = list(v) if isinstance(v, (tuple, list)) else [UNDEF] * (ix[0] + 2)
    if len(ix) == 1:
        v[ix[0]] = x
    else:
        v[ix[0]] = _insert(v[ix[0]], x, ix[1:])
    return tuple(v)
