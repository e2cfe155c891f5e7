"""Symbolic machine for the LLVM IR of generated wrappers: flat memory of checked regions,
values are python ints or z3 bit-vectors, every branch on a symbolic value is decided by z3,
paths are explored by re-execution (see Explorer)."""
import struct
import time
import z3
import llvmmod

MASK64 = (1 << 64) - 1


class _Undef(object):
    def __repr__(self):
        return 'UNDEF'

    def __deepcopy__(self, m):
        return self


UNDEF = _Undef()


class EngineError(Exception):
    """the machine cannot continue: not a verdict on the code"""


class Violation(Exception):
    """kind: 'crash', 'leak', 'exc', 'gil', 'spec' ..."""

    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg = kind, msg


class CxxThrow(Exception):
    def __init__(self, ptr, ti):
        self.ptr, self.ti = ptr, ti


class PathEnd(Exception):
    """the path is outside the assumptions"""


class Region(object):
    __slots__ = ('id', 'size', 'cells', 'fill', 'alive', 'kind', 'name', 'py', 'lazy', 'epoch', 'ro', 'how')

    def __init__(self, id, size, kind, name, epoch, fill=None, ro=False):
        self.id, self.size, self.kind, self.name, self.epoch = id, size, kind, name, epoch
        self.cells = {}
        self.fill, self.alive, self.py, self.lazy, self.ro, self.how = fill, True, None, None, ro, None

    def clone(self, epoch):
        r = Region(self.id, self.size, self.kind, self.name, epoch, self.fill, self.ro)
        r.cells = dict(self.cells)
        r.alive, r.lazy, r.how = self.alive, self.lazy, self.how
        r.py = self.py.clone() if self.py is not None else None
        return r

    def __repr__(self):
        return '<%s %s %d>' % (self.kind, self.name, self.size)


# ------------------------------------------------------------------- paths

class Explorer(object):
    """depth-first search over decisions by re-execution"""

    def __init__(self):
        self.solver = z3.SolverFor('QF_AUFBV')
        self.solver.set('timeout', 60000)
        self.prev = []
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.asserts = 0

    def start(self, prefix):
        k = 0
        while k < len(prefix) and k < len(self.prev) and prefix[k] == self.prev[k]:
            k += 1
        k = min(k, self.solver.num_scopes())
        while self.solver.num_scopes() > k:
            self.solver.pop()
        self.common = k
        self.prefix = prefix
        self.trace = []
        self.frontier = []
        self.model_ = None
        self.vars = {}
        self.choices = {}
        self.notes = []

    def finish(self):
        self.prev = self.trace

    def replaying(self):
        return len(self.trace) < len(self.prefix)

    def check(self, *extra):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        if r == z3.unknown:
            raise EngineError('solver: unknown')
        return r == z3.sat

    def model(self):
        if self.model_ is None:
            if not self.check():
                raise EngineError('infeasible path')
            self.model_ = self.solver.model()
        return self.model_

    def _push(self, d, cond):
        if len(self.trace) >= self.common:
            self.solver.push()
            if cond is not None:
                self.solver.add(cond)
        self.trace.append(d)

    def decide(self, cond):
        if isinstance(cond, (bool, int)):
            return bool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.branches += 1
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
            self._push(d, None if d >= 2 else (cond if d else z3.Not(cond)))
            return bool(d & 1)
        m = self.model()
        v = z3.is_true(m.eval(cond, True))
        if self.check(z3.Not(cond) if v else cond):
            self.frontier.append(self.trace + [0 if v else 1])
            d = int(v)
            self._push(d, cond if v else z3.Not(cond))
        else:
            d = 2 + int(v)
            self._push(d, None)
        return v

    def enumerate(self, v):
        """the value of a bit-vector; a path for each possible one"""
        for i in range(64):
            n = len(self.trace)
            self.branches += 1
            if n < len(self.prefix):
                d = self.prefix[n]
                if d[0] == 'eq':
                    self._push(d, v == d[1])
                    return d[1]
                self._push(d, v != d[1])
                continue
            k = self.model().eval(v, True).as_long()
            if self.check(v != k):
                self.frontier.append(self.trace + [('ne', k)])
            self._push(('eq', k), v == k)
            return k
        raise EngineError('too many values to enumerate')

    def choose(self, name, n):
        """one of n alternatives, each a value of a fresh variable"""
        if n == 1:
            self.choices[name] = 0
            return 0
        var = z3.BitVec('choice!' + name, 8)
        if name in self.choices:
            raise EngineError('choice %s made twice' % name)
        k = len(self.trace)
        self.branches += 1
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = 0
            for j in range(n - 1, 0, -1):
                self.frontier.append(self.trace + [j])
            self.model_ = None
        self._push(d, var == d)
        self.choices[name] = d
        return d

    def var(self, name, bits):
        v = z3.BitVec(name, bits)
        if name in self.vars and self.vars[name].size() != bits:
            raise EngineError('variable %s has two sizes' % name)
        self.vars[name] = v
        return v

    def assume(self, cond):
        if isinstance(cond, (bool, int)):
            if not cond:
                raise PathEnd()
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        n = len(self.trace)
        if n < len(self.prefix):
            self._push(1, cond)
            return
        if not self.check(cond):
            raise PathEnd()
        self._push(1, cond)
        self.model_ = None

    def valid(self, cond):
        """is cond true on the whole path? (False: the model is a counterexample)"""
        self.asserts += 1
        if isinstance(cond, (bool, int)):
            return bool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if len(self.trace) < len(self.prefix):
            return True                 # checked on the path this one branched from
        if self.check(z3.Not(cond)):
            self.model_ = self.solver.model()
            self._keep = self.model_
            return False
        return True

    def values(self):
        m = self.model_ if self.model_ is not None else self.model()
        out = dict((n, m.eval(v, True).as_long()) for n, v in self.vars.items())
        return out


# ----------------------------------------------------------------- machine

class Machine(object):
    """one linked IR module plus hooks; the state of one path"""

    def __init__(self, files, hooks):
        """hooks: object with methods named h_<symbol> (C names) or a dict attribute `table`"""
        self.mod = llvmmod.Module(files)
        self.hooks = hooks
        self.A = {}
        self.regions = {}
        self.next_id = 16
        self.epoch = 0
        self.x = Explorer()
        self.funcs = {}         # address -> callable
        self.fname = {}
        self.executed = set()
        self.steps = 0
        self.typeids = {}
        self._build()

    # -- building ---------------------------------------------------------
    def _build(self):
        m = self.mod
        self.ns = dict(M=self, A=self.A, UNDEF=UNDEF, CxxThrow=CxxThrow)
        for n in list(m.source) + m.decls:
            a = self.new_region(0, 'func', n).id << 32
            self.A[n] = a
            self.fname[a] = n
        for n, (size, const, cells) in m.globals.items():
            if n in self.A:
                continue
            r = self.new_region(size, 'global', n, fill=0 if cells is not None else None, ro=const and cells is not None)
            self.A[n] = r.id << 32
            if cells is None:
                r.how = 'extern'
        for n, t in m.aliases.items():
            self.A[n] = self.A[t]
        for n, (size, const, cells) in m.globals.items():
            r = self.regions[self.A[n] >> 32]
            if cells is None:
                continue
            for off, sz, e in cells:
                if sz < 0:
                    r.fill = 0
                else:
                    r.cells[off] = (sz, int(e) if e.isdigit() else eval(e, self.ns))
        self.compiled = {}
        for n in list(m.source) + m.decls + ['__vh_none']:
            key = 'F_' + ''.join(c if c.isalnum() else '_' for c in n)
            self.ns[key] = self._stub(n, key)
            if n in self.A:
                self.funcs[self.A[n]] = self.ns[key]

    def _stub(self, n, key):
        def stub(*args):
            f = self._resolve(n, key)
            return f(*args)
        if n in self.mod.source:
            stub.nargs = llvmmod.n_params(self.mod.source[n])
        return stub

    def base_name(self, n):
        """C name of a possibly mangled internal function"""
        if n.startswith('_ZL') or n.startswith('_Z'):
            k = 3 if n.startswith('_ZL') else 2
            d = ''
            while k < len(n) and n[k].isdigit():
                d += n[k]
                k += 1
            if d:
                return n[k:k + int(d)]
        return n

    def _resolve(self, n, key):
        """compile on first use, or find the hook"""
        bn = self.base_name(n)
        h = getattr(self.hooks, 'h_' + bn, None)
        if h is not None and (n not in self.mod.source or bn in self.hooks.OVERRIDE):
            f = self.hooks.guard(bn, h)
        elif n in self.mod.source:
            py, src = self.mod.compile_function(n)
            code = compile(src, '<ir %s>' % n, 'exec')
            exec(code, self.ns)
            f0 = self.ns[py]
            ex = self.executed

            def f(*a):
                ex.add(n)
                return f0(*a)
            f.nargs = f0.__code__.co_argcount
        elif n.startswith('llvm.'):
            f = self._intrinsic(n)
        else:
            def f(*a):
                raise EngineError('no model of external function %s' % n)
        self.ns[key] = f
        if n in self.A:
            self.funcs[self.A[n]] = f
        return f

    def _intrinsic(self, n):
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            return lambda d, s, k, v: self.memcpy(d, s, k)
        if n.startswith('llvm.memset'):
            return lambda d, c, k, v: self.memset(d, c, k)
        if n.startswith('llvm.eh.typeid.for'):
            return lambda p: self.typeid(p)
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.donothing', 'llvm.experimental.noalias')):
            return lambda *a: None
        if n.startswith('llvm.expect'):
            return lambda a, b: a
        if n.startswith('llvm.trap'):
            def trap():
                raise Violation('crash', 'trap')
            return trap
        if n.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            w = int(n.split('.i')[-1])
            p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[n.split('.')[1]]
            return lambda a, b: self.select(self.icmp(p, a, b, w), a, b, w, False)
        if n.startswith('llvm.abs'):
            w = int(n.split('.i')[-1])
            return lambda a, b: self.select(self.icmp('slt', a, 0, w), self.bin('sub', 0, a, w), a, w, False)
        raise EngineError('intrinsic ' + n)

    def typeid(self, p):
        return self.typeids.setdefault(p, len(self.typeids) + 1)

    # -- path state ---------------------------------------------------------
    def snapshot(self):
        self.snap = (dict(self.regions), self.next_id)
        self.epoch += 1

    def restore(self):
        self.regions = dict(self.snap[0])
        self.next_id = self.snap[1]
        self.epoch += 1
        self.steps = 0

    # -- memory ---------------------------------------------------------------
    def new_region(self, size, kind, name, fill=None, ro=False):
        r = Region(self.next_id, size, kind, name, self.epoch, fill, ro)
        self.regions[r.id] = r
        self.next_id += 1
        return r

    def alloc(self, size, kind, name, fill=None):
        return self.new_region(size, kind, name, fill).id << 32

    def alloca(self, size):
        return self.new_region(size, 'stack', 'alloca').id << 32

    def free_alloca(self, a):
        self.regions.pop(a >> 32, None)

    def region(self, addr):
        """region for writing meta data"""
        r = self.regions.get(addr >> 32)
        if r is None:
            raise Violation('crash', 'access to invalid address 0x%x' % addr)
        if r.epoch != self.epoch:
            r = r.clone(self.epoch)
            self.regions[r.id] = r
        return r

    def addr(self, a, what):
        if type(a) is int:
            return a
        if a is UNDEF:
            raise Violation('crash', '%s through an uninitialised pointer' % what)
        return self.concretize(a, 64)

    def concretize(self, v, w):
        if type(v) is int:
            return v
        if v is UNDEF:
            raise Violation('crash', 'uninitialised value used')
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        return self.x.enumerate(v)

    def _bad(self, r, a, n, what):
        if a < 4096:
            raise Violation('crash', '%s through a null pointer' % what)
        if r is None:
            raise Violation('crash', '%s of %d bytes at invalid address 0x%x' % (what, n, a))
        if not r.alive:
            raise Violation('crash', '%s of a %s (%s) after it was released' % (what, r.kind, r.name))
        raise Violation('crash', '%s of %d bytes at offset %d outside a %s (%s) of %d bytes' % (what, n, a & 0xffffffff, r.kind, r.name, r.size))

    def load(self, a, n):
        if type(a) is not int:
            a = self.addr(a, 'read')
        r = self.regions.get(a >> 32)
        off = a & 0xffffffff
        if r is None or not r.alive or off + n > r.size:
            if r is not None and r.how == 'extern':
                self.hooks.extern_global(r)
                return self.load(a, n)
            self._bad(r, a, n, 'read')
        if r.lazy is not None:
            r.lazy()
            r = self.regions[a >> 32]
        c = r.cells.get(off)
        if c is not None:
            if c[0] == n:
                return c[1]
        elif r.fill is not None and not r.cells:
            return int.from_bytes(bytes([r.fill]) * n, 'little')
        if r.how == 'extern':
            self.hooks.extern_global(r)
            return self.load(a, n)
        return self._slow_load(r, off, n)

    def _byte(self, r, off):
        for k in range(0, 16):
            c = r.cells.get(off - k)
            if c is not None:
                if c[0] <= k:
                    break
                v = c[1]
                if type(v) is int:
                    return (v >> (8 * k)) & 255
                if v is UNDEF:
                    return UNDEF
                if z3.is_bool(v):
                    return self.zext(v, 1, 8) if k == 0 else 0
                return z3.simplify(z3.Extract(8 * k + 7, 8 * k, v))
        return UNDEF if r.fill is None else r.fill

    def _slow_load(self, r, off, n):
        bs = [self._byte(r, off + k) for k in range(n)]
        if all(type(b) is int for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        if any(b is UNDEF for b in bs):
            return UNDEF
        if n == 1:
            return bs[0]
        return z3.simplify(z3.Concat(*[z3.BitVecVal(b, 8) if type(b) is int else b for b in bs[::-1]]))

    def store(self, a, n, v):
        if type(a) is not int:
            a = self.addr(a, 'write')
        r = self.regions.get(a >> 32)
        off = a & 0xffffffff
        if r is None or not r.alive or off + n > r.size or r.ro:
            if r is not None and r.how == 'extern':
                self.hooks.extern_global(r)
                return self.store(a, n, v)
            if r is not None and r.ro:
                raise Violation('crash', 'write to constant %s' % r.name)
            self._bad(r, a, n, 'write')
        if off == 0 and r.py is not None and not self.hooks.st.gil:
            raise Violation('gil', 'the reference count of a Python object is changed without the interpreter lock')
        if r.lazy is not None:
            r.lazy()
            r = self.regions[a >> 32]
        if r.epoch != self.epoch:
            r = r.clone(self.epoch)
            self.regions[r.id] = r
        cells = r.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            self._clear(r, off, n)
        cells[off] = (n, v)

    def _clear(self, r, off, n):
        cells = r.cells
        for k in range(off - 15, off + n):
            c = cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            # overlaps: split into bytes outside [off, off+n)
            keep = [(j, self._byte(r, j)) for j in range(k, k + c[0]) if not off <= j < off + n]
            del cells[k]
            for j, b in keep:
                cells[j] = (1, b)

    def load_agg(self, a, leaves):
        if isinstance(leaves, tuple):
            return self.load(self.padd(a, leaves[0]), leaves[1])
        return tuple(self.load_agg(a, l) for l in leaves)

    def store_agg(self, a, v, leaves):
        if isinstance(leaves, tuple):
            return self.store(self.padd(a, leaves[0]), leaves[1], v)
        for x, l in zip(v, leaves):
            self.store_agg(a, x, l)

    def memcpy(self, d, s, n):
        n = self.concretize(n, 64)
        if n == 0:
            return d
        d, s = self.addr(d, 'write'), self.addr(s, 'read')
        self.load(s, 1), self.load(s + n - 1, 1)
        rs = self.regions[s >> 32]
        so = s & 0xffffffff
        if so + n > rs.size:
            self._bad(rs, s, n, 'read')
        todo = []
        k = so
        while k < so + n:
            c = rs.cells.get(k)
            if c is not None and k + c[0] <= so + n:
                todo.append((k - so, c[0], c[1]))
                k += c[0]
            else:
                todo.append((k - so, 1, self._byte(rs, k)))
                k += 1
        do = d & 0xffffffff
        rd = self.regions.get(d >> 32)
        if rd is None or not rd.alive or do + n > rd.size:
            self._bad(rd, d, n, 'write')
        for o, z, v in todo:
            self.store(d + o, z, v)
        return d

    def memset(self, d, c, n):
        n = self.concretize(n, 64)
        c = self.concretize(c, 8) & 255
        for k in range(0, n - n % 8, 8):
            self.store(d + k, 8, int.from_bytes(bytes([c]) * 8, 'little'))
        for k in range(n - n % 8, n):
            self.store(d + k, 1, c)
        return d

    def byval(self, p, size, al):
        a = self.alloca(size)
        al.append(a)
        self.memcpy(a, p, size)
        return a

    def cstr(self, p, limit=4096):
        """concrete bytes of a C string (error on symbolic)"""
        out = []
        while True:
            b = self.load(p, 1)
            if type(b) is not int:
                raise EngineError('symbolic C string')
            if b == 0:
                return bytes(out).decode('latin1')
            out.append(b)
            p += 1

    def symcstr(self, p):
        """list of bytes (ints or 8-bit vectors) up to the terminating NUL (decided)"""
        out = []
        while True:
            b = self.load(p, 1)
            if b is UNDEF:
                raise Violation('crash', 'uninitialised characters read')
            if type(b) is int:
                if b == 0:
                    return out
            elif self.x.decide(b == 0):
                return out
            out.append(b)
            p += 1

    def bytes_at(self, p, n):
        out = []
        for i in range(n):
            b = self.load(p + i, 1)
            if b is UNDEF:
                raise Violation('crash', 'uninitialised characters read')
            out.append(b)
        return out

    # -- arithmetic ---------------------------------------------------------------
    def bv(self, v, w):
        if type(v) is int:
            return z3.BitVecVal(v, w)
        if v is UNDEF:
            raise Violation('crash', 'uninitialised value used')
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v

    def padd(self, p, o):
        if type(p) is int and type(o) is int:
            return (p + o) & MASK64
        if p is UNDEF or o is UNDEF:
            return UNDEF
        return z3.simplify(self.bv(p, 64) + self.bv(o, 64))

    def scaled(self, v, w, k):
        if type(v) is int:
            if v >= 1 << (w - 1):
                v -= 1 << w
            return (v * k) & MASK64
        if v is UNDEF:
            return UNDEF
        v = self.bv(v, w)
        if w < 64:
            v = z3.SignExt(64 - w, v)
        return v * k

    @staticmethod
    def sgn(v, w):
        return v - (1 << w) if v >= 1 << (w - 1) else v

    def bin(self, o, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is int and type(b) is int:
            mask = (1 << w) - 1
            if o == 'add':
                return (a + b) & mask
            if o == 'sub':
                return (a - b) & mask
            if o == 'mul':
                return (a * b) & mask
            if o == 'and':
                return a & b
            if o == 'or':
                return a | b
            if o == 'xor':
                return a ^ b
            if o == 'shl':
                return (a << b) & mask if b < w else 0
            if o == 'lshr':
                return a >> b if b < w else 0
            if o == 'ashr':
                return (self.sgn(a, w) >> min(b, w - 1)) & mask
            if b == 0:
                raise Violation('crash', 'division by zero')
            if o == 'udiv':
                return a // b
            if o == 'urem':
                return a % b
            sa, sb = self.sgn(a, w), self.sgn(b, w)
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            return q & mask if o == 'sdiv' else (sa - q * sb) & mask
        if w == 1:
            ba, bb = self.boolean(a), self.boolean(b)
            return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[o](ba, bb)
        A, B = self.bv(a, w), self.bv(b, w)
        if o in ('udiv', 'sdiv', 'urem', 'srem'):
            if self.x.decide(B == 0):
                raise Violation('crash', 'division by zero')
        r = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B, 'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B,
             'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B, 'udiv': lambda: z3.UDiv(A, B),
             'sdiv': lambda: A / B, 'urem': lambda: z3.URem(A, B), 'srem': lambda: z3.SRem(A, B)}[o]()
        return self.norm(r)

    def norm(self, r):
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def boolean(self, v):
        if type(v) is int:
            return z3.BoolVal(bool(v))
        if z3.is_bool(v):
            return v
        return v == 1

    def icmp(self, p, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is int and type(b) is int:
            if p[0] == 's':
                a, b = self.sgn(a, w), self.sgn(b, w)
            q = p if p in ('eq', 'ne') else p[1:]
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[q])
        if w == 1:
            ba, bb = self.boolean(a), self.boolean(b)
            return ba == bb if p == 'eq' else ba != bb
        A, B = self.bv(a, w), self.bv(b, w)
        return {'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'ult': lambda: z3.ULT(A, B),
                'ule': lambda: z3.ULE(A, B), 'sgt': lambda: A > B, 'sge': lambda: A >= B, 'slt': lambda: A < B, 'sle': lambda: A <= B}[p]()

    def zext(self, v, f, t):
        if type(v) is int or v is UNDEF:
            return v
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, t), z3.BitVecVal(0, t))
        return z3.ZeroExt(t - f, v)

    def sext(self, v, f, t):
        if v is UNDEF:
            return v
        if type(v) is int:
            return self.sgn(v, f) & ((1 << t) - 1)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal((1 << t) - 1, t), z3.BitVecVal(0, t))
        return z3.SignExt(t - f, v)

    def trunc(self, v, f, t):
        if v is UNDEF:
            return v
        if type(v) is int:
            return v & ((1 << t) - 1)
        if z3.is_bool(v):
            return v
        if t == 1:
            return z3.simplify(z3.Extract(0, 0, v) == 1)
        return self.norm(z3.Extract(t - 1, 0, v))

    # floating point values are bit patterns; conversions between formats and arithmetic on
    # symbolic values are uninterpreted functions
    _uf = {}

    def uf(self, name, fw, tw, *args):
        k = (name, tw) + tuple(fw for _ in args)
        f = self._uf.get(k)
        if f is None:
            f = self._uf[k] = z3.Function('%s_%d_%d' % (name, fw, tw), *([z3.BitVecSort(fw)] * len(args) + [z3.BitVecSort(tw)]))
        return f(*[self.bv(a, fw) for a in args])

    @staticmethod
    def fval(v, w):
        return struct.unpack('<d' if w == 64 else '<f', v.to_bytes(w // 8, 'little'))[0]

    @staticmethod
    def fbits(d, w):
        try:
            return int.from_bytes(struct.pack('<d' if w == 64 else '<f', d), 'little')
        except OverflowError:
            return 0x7f800000 if d > 0 else 0xff800000

    def fptrunc(self, v, f, t):
        if v is UNDEF:
            return v
        if type(v) is int:
            return self.fbits(self.fval(v, f), t)
        if z3.is_app(v) and v.decl().name() == 'fpext_%d_%d' % (t, f):
            return v.arg(0)
        return self.uf('fptrunc', f, t, v)

    def fpext(self, v, f, t):
        if v is UNDEF:
            return v
        if type(v) is int:
            return self.fbits(self.fval(v, f), t)
        return self.uf('fpext', f, t, v)

    def sitofp(self, v, f, t):
        if v is UNDEF:
            return v
        if type(v) is int:
            return self.fbits(float(self.sgn(v, f)), t)
        return self.uf('sitofp', f, t, self.bv(v, f))

    def uitofp(self, v, f, t):
        if v is UNDEF:
            return v
        if type(v) is int:
            return self.fbits(float(v), t)
        return self.uf('uitofp', f, t, self.bv(v, f))

    def fptosi(self, v, f, t):
        if v is UNDEF:
            return v
        if type(v) is int:
            return int(self.fval(v, f)) & ((1 << t) - 1)
        return self.uf('fptosi', f, t, v)

    fptoui = fptosi

    def fbin(self, o, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is int and type(b) is int:
            x, y = self.fval(a, w), self.fval(b, w)
            return self.fbits({'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[o](), w)
        return self.uf(o, w, w, a, b)

    def fneg(self, a, w):
        return self.bin('xor', a, 1 << (w - 1), w)

    def fcmp(self, p, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is int and type(b) is int:
            x, y = self.fval(a, w), self.fval(b, w)
            un = x != x or y != y
            r = {1: x == y, 2: x > y, 3: x >= y, 4: x < y, 5: x <= y, 6: x != y and not un}.get(p & 7, False)
            if p >= 8:
                r = un or {8: False, 9: x == y, 10: x > y, 11: x >= y, 12: x < y, 13: x <= y, 14: x != y}[p]
            elif p == 7:
                r = not un
            return int(r)
        return self.uf('fcmp%d' % p, w, 8, a, b) == 1

    def select(self, c, a, b, w, ptr):
        if c is UNDEF:
            raise Violation('crash', 'choice depends on an uninitialised value')
        if type(c) is int:
            return a if c else b
        if ptr or w == 0 or a is UNDEF or b is UNDEF:
            return a if self.branch(c) else b
        c = self.boolean(c)
        if w == 1:
            return z3.If(c, self.boolean(a), self.boolean(b))
        return z3.If(c, self.bv(a, w), self.bv(b, w))

    def insertvalue(self, a, v, ix):
        l = list(a) if isinstance(a, tuple) else [UNDEF] * (ix[0] + 1)
        l[ix[0]] = v if len(ix) == 1 else self.insertvalue(l[ix[0]], v, ix[1:])
        return tuple(l)

    # -- control --------------------------------------------------------------------
    def branch(self, c):
        self.steps += 1
        if self.steps > 200000:
            raise Violation('hang', 'more than 200000 branches on one path')
        if type(c) is int:
            return c
        if c is UNDEF:
            raise Violation('crash', 'branch on an uninitialised value')
        return self.x.decide(self.boolean(c))

    def switch(self, v, cases, default, w):
        if v is UNDEF:
            raise Violation('crash', 'switch on an uninitialised value')
        for k, b in cases:
            if type(v) is int:
                if v == k:
                    return b
            elif self.x.decide(v == z3.BitVecVal(k, w)):
                return b
        return default

    def unreachable(self):
        raise Violation('crash', 'undefined behaviour reached (control flows off a function)')

    def icall(self, a):
        a = self.addr(a, 'call')
        f = self.funcs.get(a)
        if f is None:
            if a < 4096:
                raise Violation('crash', 'call through a null pointer')
            raise Violation('crash', 'call of a non-function address 0x%x' % a)
        return f

    def call(self, name, *args):
        key = 'F_' + ''.join(c if c.isalnum() else '_' for c in name)
        if key not in self.ns:
            raise EngineError('no function ' + name)
        return self.ns[key](*args)

    # -- C++ exceptions ---------------------------------------------------------------
    def bases(self, ti):
        """[(base typeinfo, offset or None when virtual)] of a class type info"""
        r = self.regions.get(ti >> 32)
        if r is None:
            return []
        vt = self.load(ti, 8)
        vn = self.regions[vt >> 32].name
        if 'si_class' in vn:
            return [(self.load(ti + 16, 8), 0)]
        if 'vmi_class' in vn:
            n = self.load(ti + 20, 4)
            out = []
            for i in range(n):
                fl = self.load(ti + 24 + 16 * i + 8, 8)
                virt = fl & 1
                off = fl >> 8
                off = off - (1 << 56) if off >= 1 << 55 else off
                out.append((self.load(ti + 24 + 16 * i, 8), (off, virt)))
            return [(t, (o if not v else ('virtual', o))) for t, (o, v) in out]
        return []

    def tiname(self, ti):
        """type infos of modules that are loaded separately are the same if their names are"""
        r = self.regions.get(ti >> 32)
        return ti if r is None or not (r.name or '').startswith('_ZTI') else r.name.split('.')[0]

    def upcast(self, ptr, ti, target):
        """addresses of the `target` subobjects of the object of type ti at ptr"""
        if ti == target or self.tiname(ti) == self.tiname(target):
            return [ptr]
        out = []
        for b, off in self.bases(ti):
            if isinstance(off, tuple):
                vptr = self.load(ptr, 8)
                p = (ptr + self.load((vptr + off[1]) & MASK64, 8)) & MASK64
            else:
                p = (ptr + off) & MASK64
            for q in self.upcast(p, b, target):
                if q not in out:
                    out.append(q)
        return out

    def catches(self, e, ti):
        if ti == 0:
            return e.ptr
        if self.is_ptr_ti(ti) or self.is_ptr_ti(e.ti):
            return e.ptr if ti == e.ti else None
        r = self.upcast(e.ptr, e.ti, ti)
        return r[0] if len(r) == 1 else None

    def is_ptr_ti(self, ti):
        vt = self.load(ti, 8)
        return 'pointer' in self.regions[vt >> 32].name

    def landingpad(self, e, clauses, cleanup):
        for k, c in clauses:
            if k == 'c':
                p = self.catches(e, c)
                if p is not None:
                    e.adj = p
                    self.cur_exc[e.ptr] = e
                    return (e.ptr, self.typeid(c))
            elif not any(self.catches(e, t) is not None for t in c):
                raise Violation('crash', 'exception specification violated')
        if not cleanup:
            raise e
        self.cur_exc[e.ptr] = e
        return (e.ptr, 0)

    def resume(self, v):
        raise self.cur_exc[v[0]]

    cur_exc = {}
