"""Reads LLVM IR (text) through libLLVM's C API and turns each function into Python source
that performs it on an irsym.Machine. Nothing is interpreted here."""
import ctypes as C
import glob

_P = C.c_void_p


def _lib():
    for pat in ('/usr/lib/llvm-18/lib/libLLVM.so.1', '/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so*',
                '/usr/lib/llvm-18/lib/libLLVM*.so*'):
        for f in sorted(glob.glob(pat)):
            try:
                return C.CDLL(f)
            except OSError:
                pass
    raise RuntimeError('libLLVM 18 not found')


L = _lib()


def _f(name, res, *args):
    f = getattr(L, name)
    f.restype, f.argtypes = res, list(args)
    return f


U, ULL, I = C.c_uint, C.c_ulonglong, C.c_int
ctx_create = _f('LLVMContextCreate', _P)
mb_file = _f('LLVMCreateMemoryBufferWithContentsOfFile', I, C.c_char_p, C.POINTER(_P), C.POINTER(C.c_char_p))
parse_ir = _f('LLVMParseIRInContext', I, _P, _P, C.POINTER(_P), C.POINTER(C.c_char_p))
link2 = _f('LLVMLinkModules2', I, _P, _P)
first_fn, next_fn = _f('LLVMGetFirstFunction', _P, _P), _f('LLVMGetNextFunction', _P, _P)
first_gl, next_gl = _f('LLVMGetFirstGlobal', _P, _P), _f('LLVMGetNextGlobal', _P, _P)
first_al, next_al = _f('LLVMGetFirstGlobalAlias', _P, _P), _f('LLVMGetNextGlobalAlias', _P, _P)
aliasee = _f('LLVMAliasGetAliasee', _P, _P)
_name2 = _f('LLVMGetValueName2', C.c_void_p, _P, C.POINTER(C.c_size_t))
is_decl = _f('LLVMIsDeclaration', I, _P)
initializer = _f('LLVMGetInitializer', _P, _P)
is_gconst = _f('LLVMIsGlobalConstant', I, _P)
gvtype = _f('LLVMGlobalGetValueType', _P, _P)
type_of, type_kind = _f('LLVMTypeOf', _P, _P), _f('LLVMGetTypeKind', I, _P)
int_width = _f('LLVMGetIntTypeWidth', U, _P)
elem_type, arr_len, vec_size = _f('LLVMGetElementType', _P, _P), _f('LLVMGetArrayLength2', C.c_uint64, _P), _f('LLVMGetVectorSize', U, _P)
n_struct = _f('LLVMCountStructElementTypes', U, _P)
struct_at = _f('LLVMStructGetTypeAtIndex', _P, _P, U)
dl_of = _f('LLVMGetModuleDataLayout', _P, _P)
abi_size = _f('LLVMABISizeOfType', ULL, _P, _P)
store_size = _f('LLVMStoreSizeOfType', ULL, _P, _P)
offset_of = _f('LLVMOffsetOfElement', ULL, _P, _P, U)
value_kind = _f('LLVMGetValueKind', I, _P)
n_params, param = _f('LLVMCountParams', U, _P), _f('LLVMGetParam', _P, _P, U)
first_bb, next_bb = _f('LLVMGetFirstBasicBlock', _P, _P), _f('LLVMGetNextBasicBlock', _P, _P)
first_in, next_in = _f('LLVMGetFirstInstruction', _P, _P), _f('LLVMGetNextInstruction', _P, _P)
opcode = _f('LLVMGetInstructionOpcode', I, _P)
const_opcode = _f('LLVMGetConstOpcode', I, _P)
n_ops, op = _f('LLVMGetNumOperands', I, _P), _f('LLVMGetOperand', _P, _P, U)
icmp_pred, fcmp_pred = _f('LLVMGetICmpPredicate', I, _P), _f('LLVMGetFCmpPredicate', I, _P)
n_succ, succ = _f('LLVMGetNumSuccessors', U, _P), _f('LLVMGetSuccessor', _P, _P, U)
is_cond, cond = _f('LLVMIsConditional', I, _P), _f('LLVMGetCondition', _P, _P)
alloc_type = _f('LLVMGetAllocatedType', _P, _P)
gep_type = _f('LLVMGetGEPSourceElementType', _P, _P)
called_value, called_ft = _f('LLVMGetCalledValue', _P, _P), _f('LLVMGetCalledFunctionType', _P, _P)
n_args = _f('LLVMGetNumArgOperands', U, _P)
normal_dest, unwind_dest = _f('LLVMGetNormalDest', _P, _P), _f('LLVMGetUnwindDest', _P, _P)
n_clauses, clause, is_cleanup = _f('LLVMGetNumClauses', U, _P), _f('LLVMGetClause', _P, _P, U), _f('LLVMIsCleanup', I, _P)
n_inc, inc_v, inc_b = _f('LLVMCountIncoming', U, _P), _f('LLVMGetIncomingValue', _P, _P, U), _f('LLVMGetIncomingBlock', _P, _P, U)
n_idx, idxs = _f('LLVMGetNumIndices', U, _P), _f('LLVMGetIndices', C.POINTER(U), _P)
zext_val = _f('LLVMConstIntGetZExtValue', ULL, _P)
print_val = _f('LLVMPrintValueToString', C.c_void_p, _P)
print_type = _f('LLVMPrintTypeToString', C.c_void_p, _P)
seq_elem = _f('LLVMGetElementAsConstant', _P, _P, U)
agg_elem = _f('LLVMGetAggregateElement', _P, _P, U)
real_val = _f('LLVMConstRealGetDouble', C.c_double, _P, C.POINTER(I))
as_string = _f('LLVMGetAsString', C.c_void_p, _P, C.POINTER(C.c_size_t))
is_str = _f('LLVMIsConstantString', I, _P)
cs_attr = _f('LLVMGetCallSiteEnumAttribute', _P, _P, U, U)
attr_kind = _f('LLVMGetEnumAttributeKindForName', U, C.c_char_p, C.c_size_t)
attr_type = _f('LLVMGetTypeAttributeValue', _P, _P)
bb_as_value = _f('LLVMBasicBlockAsValue', _P, _P)

BYVAL = attr_kind(b'byval', 5)
FUNC, GVAR, GALIAS, CEXPR = 5, 8, 6, 10
OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul',
       14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or',
       25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi',
       35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp',
       44: 'phi', 45: 'call', 46: 'select', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume',
       59: 'landingpad', 66: 'fneg', 68: 'freeze'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}


def name_of(v):
    n = C.c_size_t()
    p = _name2(v, C.byref(n))
    return C.string_at(p, n.value).decode()


def text(v):
    return C.string_at(print_val(v)).decode()


class IRError(Exception):
    pass


class Module(object):
    """functions: name -> python source; globals: name -> (size, const, initial cells)"""

    def __init__(self, files):
        self.ctx = ctx_create()
        self.mod = None
        for f in files:
            buf, msg, m = _P(), C.c_char_p(), _P()
            if mb_file(f.encode(), C.byref(buf), C.byref(msg)):
                raise IRError(msg.value)
            if parse_ir(self.ctx, buf, C.byref(m), C.byref(msg)):
                raise IRError(msg.value)
            if self.mod is None:
                self.mod = m
            elif link2(self.mod, m):
                raise IRError('link failed')
        self.dl = dl_of(self.mod)
        self.source = {}
        self.decls = []
        self.globals = {}
        self.aliases = {}
        self._tcache = {}
        f = first_fn(self.mod)
        self.ninstr = 0
        while f:
            n = name_of(f)
            if is_decl(f):
                self.decls.append(n)
            else:
                self.source[n] = f
            f = next_fn(f)
        a = first_al(self.mod)
        while a:
            self.aliases[name_of(a)] = name_of(aliasee(a))
            a = next_al(a)
        g = first_gl(self.mod)
        while g:
            n = name_of(g)
            t = gvtype(g)
            cells = None
            if not is_decl(g):
                cells = []
                self._init(initializer(g), 0, cells)
            try:
                size = abi_size(self.dl, t)
            except Exception:
                size = 0
            self.globals[n] = (size, bool(is_gconst(g)), cells)
            g = next_gl(g)

    # types -------------------------------------------------------------
    def ty(self, t):
        """('i', bits) ('p',) ('f', bits) ('v',) ('agg', t)"""
        r = self._tcache.get(t)
        if r is None:
            k = type_kind(t)
            r = {8: lambda: ('i', int_width(t)), 12: lambda: ('i', 64), 2: lambda: ('f', 32), 3: lambda: ('f', 64),
                 4: lambda: ('f', 80), 0: lambda: ('v', 0), 10: lambda: ('agg', t), 11: lambda: ('agg', t)}.get(k, lambda: ('?', k))()
            self._tcache[t] = r
        return r

    def size(self, t):
        return abi_size(self.dl, t)

    # constants ---------------------------------------------------------
    def const(self, v):
        """python expression for a constant operand"""
        k = value_kind(v)
        t = self.ty(type_of(v))
        if k in (FUNC, GVAR):
            return 'A[%r]' % name_of(v)
        if k == GALIAS:
            return 'A[%r]' % self.aliases[name_of(v)]
        if k == CEXPR:
            o = OPC.get(const_opcode(v), '?')
            if o == 'gep':
                return self.gep(v, lambda x: self.const(x))
            if o in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.const(op(v, 0))
            if o == 'trunc':
                return '(%s & %d)' % (self.const(op(v, 0)), (1 << t[1]) - 1)
            if o in ('sub', 'add'):
                return '((%s %s %s) & %d)' % (self.const(op(v, 0)), '-' if o == 'sub' else '+', self.const(op(v, 1)), (1 << t[1]) - 1)
            raise IRError('constant expression ' + text(v))
        if k == 13 and t[0] == 'i':
            pass
        s = text(v)
        if s.endswith(' null') or s.endswith('zeroinitializer'):
            return self.zero(type_of(v))
        if s.endswith(' undef') or s.endswith(' poison'):
            return 'UNDEF' if t[0] != 'agg' else self.undef(type_of(v))
        if t[0] == 'i':
            return str(zext_val(v)) if t[1] <= 64 else str(int(s.split()[-1]) & ((1 << t[1]) - 1))
        if t[0] == 'f':
            import struct
            loses = I()
            d = real_val(v, C.byref(loses))
            if t[1] == 32:
                return str(struct.unpack('<I', struct.pack('<f', d))[0])
            return str(struct.unpack('<Q', struct.pack('<d', d))[0])
        if t[0] == 'agg':
            tt = type_of(v)
            n = n_struct(tt) if type_kind(tt) == 10 else arr_len(tt)
            return '(' + ''.join(self.const(agg_elem(v, i)) + ',' for i in range(n)) + ')'
        raise IRError('constant ' + s)

    def zero(self, t):
        r = self.ty(t)
        if r[0] != 'agg':
            return '0'
        n = n_struct(t) if type_kind(t) == 10 else arr_len(t)
        return '(' + ''.join(self.zero(struct_at(t, i) if type_kind(t) == 10 else elem_type(t)) + ',' for i in range(n)) + ')'

    def undef(self, t):
        n = n_struct(t) if type_kind(t) == 10 else arr_len(t)
        return '(' + 'UNDEF,' * n + ')'

    def leaves(self, t, base=0):
        """[(offset, size)] of the scalar leaves of an aggregate as nested structure"""
        r = self.ty(t)
        if r[0] != 'agg':
            return (base, (r[1] + 7) // 8)
        out = []
        if type_kind(t) == 10:
            for i in range(n_struct(t)):
                out.append(self.leaves(struct_at(t, i), base + offset_of(self.dl, t, i)))
        else:
            e = elem_type(t)
            for i in range(arr_len(t)):
                out.append(self.leaves(e, base + i * self.size(e)))
        return out

    def _init(self, v, off, cells):
        t = type_of(v)
        r = self.ty(t)
        if r[0] == 'agg':
            s = text(v)
            if is_str(v) and not s.endswith('zeroinitializer'):
                n = C.c_size_t()
                p = as_string(v, C.byref(n))
                for i, b in enumerate(C.string_at(p, n.value)):
                    cells.append((off + i, 1, str(b)))
                return
            if s.endswith('zeroinitializer'):
                cells.append((off, -self.size(t), '0'))
                return
            if s.endswith(' undef'):
                return
            if type_kind(t) == 10:
                for i in range(n_struct(t)):
                    self._init(agg_elem(v, i), off + offset_of(self.dl, t, i), cells)
            else:
                e = elem_type(t)
                for i in range(arr_len(t)):
                    self._init(agg_elem(v, i), off + i * self.size(e), cells)
            return
        c = self.const(v)
        if c != 'UNDEF':
            cells.append((off, (r[1] + 7) // 8, c))

    # functions -----------------------------------------------------------
    def gep(self, v, val):
        t = gep_type(v)
        base = val(op(v, 0))
        off = 0
        terms = []
        for i in range(1, n_ops(v)):
            o = op(v, i)
            w = self.ty(type_of(o))[1]
            if i > 1 and type_kind(t) == 10:
                k = zext_val(o)
                off += offset_of(self.dl, t, k)
                t = struct_at(t, k)
                continue
            if i > 1:
                t = elem_type(t)
            sz = self.size(t)
            x = val(o)
            if x.isdigit():
                k = int(x)
                if k >= 1 << (w - 1):
                    k -= 1 << w
                off += k * sz
            else:
                terms.append('M.scaled(%s,%d,%d)' % (x, w, sz))
        if not terms:
            return base if off == 0 else ('(%s+%d)' % (base, off) if base.startswith('A[') else 'M.padd(%s,%d)' % (base, off))
        e = base
        for x in terms:
            e = 'M.padd(%s,%s)' % (e, x)
        return e if off == 0 else 'M.padd(%s,%d)' % (e, off)

    def compile_function(self, n):
        """python source of function n; calls go through M.call_<...>"""
        f = self.source[n]
        names = {}

        def nm(v):
            if v not in names:
                names[v] = 'v%d' % len(names)
            return names[v]
        params = [nm(param(f, i)) for i in range(n_params(f))]
        bbs = []
        b = first_bb(f)
        while b:
            bbs.append(b)
            b = next_bb(b)
        bidx = {b: i for i, b in enumerate(bbs)}
        pyname = 'f_' + ''.join(c if c.isalnum() else '_' for c in n)
        out = ['def %s(%s):' % (pyname, ', '.join(params + ['*va'])), ' b=0; pb=-1; exc=None; _al=[]', ' try:', '  while 1:']

        def val(v):
            k = value_kind(v)
            if k in (0, 24):      # argument / instruction
                return nm(v)
            if v in names:
                return names[v]
            if k in (3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 25):
                return self.const(v)
            return nm(v)
        for bi, b in enumerate(bbs):
            out.append('   %s b==%d:' % ('if' if bi == 0 else 'elif', bi))
            i = first_in(b)
            phis = []
            while i:
                self.ninstr += 1
                o = OPC.get(opcode(i))
                if o is None:
                    raise IRError('opcode %d: %s' % (opcode(i), text(i)))
                if o == 'phi':
                    phis.append((nm(i), '{' + ','.join('%d:lambda:%s' % (bidx[inc_b(i, k)], val(inc_v(i, k))) for k in range(n_inc(i))) + '}[pb]()'))
                    nx = next_in(i)
                    if not nx or OPC.get(opcode(nx)) != 'phi':
                        out.append('    %s = %s' % (''.join(p[0] + ',' for p in phis), '(' + ''.join(p[1] + ',' for p in phis) + ')'))
                    i = nx
                    continue
                for line in self.instr(o, i, nm, val, bidx, bi):
                    out.append('    ' + line)
                i = next_in(i)
        out.append(' finally:')
        out.append('  for a_ in _al: M.free_alloca(a_)')
        return pyname, '\n'.join(out)

    def instr(self, o, i, nm, val, bidx, bi):
        v = nm(i)
        t = self.ty(type_of(i))
        if o == 'alloca':
            at = alloc_type(i)
            cnt = val(op(i, 0))
            yield '%s=M.alloca(%s*%d); _al.append(%s)' % (v, cnt, self.size(at), v)
        elif o == 'load':
            p = val(op(i, 0))
            if t[0] == 'agg':
                yield '%s=M.load_agg(%s,%r)' % (v, p, self.leaves(type_of(i)))
            elif t == ('i', 1):
                yield '%s=M.trunc(M.load(%s,1),8,1)' % (v, p)
            else:
                yield '%s=M.load(%s,%d)' % (v, p, (t[1] + 7) // 8)
        elif o == 'store':
            s = op(i, 0)
            st = self.ty(type_of(s))
            if st[0] == 'agg':
                yield 'M.store_agg(%s,%s,%r)' % (val(op(i, 1)), val(s), self.leaves(type_of(s)))
            elif st == ('i', 1):
                yield 'M.store(%s,1,M.zext(%s,1,8))' % (val(op(i, 1)), val(s))
            else:
                yield 'M.store(%s,%d,%s)' % (val(op(i, 1)), (st[1] + 7) // 8, val(s))
        elif o == 'gep':
            yield '%s=%s' % (v, self.gep(i, val))
        elif o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = val(op(i, 0)), val(op(i, 1))
            sym = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}.get(o)
            if sym and t[1] > 1:
                yield 'if type(%s) is int and type(%s) is int: %s=(%s%s%s)&%d' % (a, b, v, a, sym, b, (1 << t[1]) - 1)
                yield 'else: %s=M.bin(%r,%s,%s,%d)' % (v, o, a, b, t[1])
            else:
                yield '%s=M.bin(%r,%s,%s,%d)' % (v, o, a, b, t[1])
        elif o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            yield '%s=M.fbin(%r,%s,%s,%d)' % (v, o, val(op(i, 0)), val(op(i, 1)), t[1])
        elif o == 'fneg':
            yield '%s=M.fneg(%s,%d)' % (v, val(op(i, 0)), t[1])
        elif o == 'icmp':
            a, b = val(op(i, 0)), val(op(i, 1))
            w = self.ty(type_of(op(i, 0)))[1]
            p = ICMP[icmp_pred(i)]
            if p in ('eq', 'ne'):
                yield 'if type(%s) is int and type(%s) is int: %s=1 if %s%s%s else 0' % (a, b, v, a, '==' if p == 'eq' else '!=', b)
                yield 'else: %s=M.icmp(%r,%s,%s,%d)' % (v, p, a, b, w)
            else:
                yield '%s=M.icmp(%r,%s,%s,%d)' % (v, p, a, b, w)
        elif o == 'fcmp':
            yield '%s=M.fcmp(%d,%s,%s,%d)' % (v, fcmp_pred(i), val(op(i, 0)), val(op(i, 1)), self.ty(type_of(op(i, 0)))[1])
        elif o in ('zext', 'sext', 'trunc', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'):
            yield '%s=M.%s(%s,%d,%d)' % (v, o, val(op(i, 0)), self.ty(type_of(op(i, 0)))[1], t[1])
        elif o in ('ptrtoint', 'inttoptr'):
            fw = self.ty(type_of(op(i, 0)))[1]
            yield '%s=%s' % (v, val(op(i, 0))) if fw == t[1] else '%s=M.%s(%s,%d,%d)' % (v, 'trunc' if fw > t[1] else 'zext', val(op(i, 0)), fw, t[1])
        elif o in ('bitcast', 'freeze'):
            yield '%s=%s' % (v, val(op(i, 0)))
        elif o == 'select':
            isptr = type_kind(type_of(i)) == 12
            yield '%s=M.select(%s,%s,%s,%d,%s)' % (v, val(op(i, 0)), val(op(i, 1)), val(op(i, 2)), t[1] if t[0] != 'agg' else 0, isptr)
        elif o == 'br':
            if is_cond(i):
                yield 'pb=%d; b=%d if M.branch(%s) else %d; continue' % (bi, bidx[succ(i, 0)], val(cond(i)), bidx[succ(i, 1)])
            else:
                yield 'pb=%d; b=%d; continue' % (bi, bidx[succ(i, 0)])
        elif o == 'switch':
            c = op(i, 0)
            w = self.ty(type_of(c))[1]
            cases = []
            for k in range(1, n_succ(i)):
                cases.append((zext_val(op(i, 2 * k)), bidx[succ(i, k)]))
            yield 'pb=%d; b=M.switch(%s,%r,%d,%d); continue' % (bi, val(c), cases, bidx[succ(i, 0)], w)
        elif o == 'ret':
            yield 'return %s' % (val(op(i, 0)) if n_ops(i) else 'None')
        elif o == 'unreachable':
            yield 'M.unreachable()'
        elif o in ('call', 'invoke'):
            cv = called_value(i)
            args = []
            na = n_args(i)
            for k in range(na):
                a = op(i, k)
                at = cs_attr(i, k + 1, BYVAL)
                if type_kind(type_of(a)) == 16:       # metadata
                    args.append('None')
                elif at:
                    args.append('M.byval(%s,%d,_al)' % (val(a), self.size(attr_type(at))))
                else:
                    args.append(val(a))
            if value_kind(cv) == FUNC:
                tgt = name_of(cv)
                call = 'F_%s(%s)' % (''.join(c if c.isalnum() else '_' for c in tgt), ', '.join(args))
                self.called = getattr(self, 'called', set())
                self.called.add(tgt)
            elif value_kind(cv) == GALIAS:
                tgt = self.aliases[name_of(cv)]
                call = 'F_%s(%s)' % (''.join(c if c.isalnum() else '_' for c in tgt), ', '.join(args))
                self.called = getattr(self, 'called', set())
                self.called.add(tgt)
            else:
                call = 'M.icall(%s)(%s)' % (val(cv), ', '.join(args))
            if t[0] != 'v':
                call = v + '=' + call
            if o == 'call':
                yield call
            else:
                ud = unwind_dest(i)
                yield 'try: ' + call
                yield 'except CxxThrow as e_: exc=e_; pb=%d; b=%d; continue' % (bi, bidx[ud])
                yield 'pb=%d; b=%d; continue' % (bi, bidx[normal_dest(i)])
        elif o == 'landingpad':
            cl = []
            for k in range(n_clauses(i)):
                c = clause(i, k)
                if self.ty(type_of(c))[0] == 'agg':
                    cl.append('("f",%s)' % self.const(c))
                else:
                    cl.append('("c",%s)' % self.const(c))
            yield '%s=M.landingpad(exc,[%s],%s)' % (v, ','.join(cl), bool(is_cleanup(i)))
        elif o == 'resume':
            yield 'M.resume(%s)' % val(op(i, 0))
        elif o == 'extractvalue':
            n, ix = n_idx(i), idxs(i)
            yield '%s=%s%s' % (v, val(op(i, 0)), ''.join('[%d]' % ix[k] for k in range(n)))
        elif o == 'insertvalue':
            n, ix = n_idx(i), idxs(i)
            yield '%s=M.insertvalue(%s,%s,%r)' % (v, val(op(i, 0)), val(op(i, 1)), [ix[k] for k in range(n)])
        elif o == 'fence':
            yield 'pass'
        elif o == 'atomicrmw':
            raise IRError(text(i))
        else:
            raise IRError(text(i))
