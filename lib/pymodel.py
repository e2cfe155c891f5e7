"""Model of the CPython 3.12 C-API (the part generated wrappers use), of the C and C++ runtime
and of the wrapped library's oracle calls, on top of irsym.Machine. Python objects are memory
regions with the real layout of their head (reference count, type); their content is in
Region.py. Types are real PyTypeObject images, so that inline functions of Python.h run as IR."""
import z3
from irsym import Machine, Region, Violation, EngineError, CxxThrow, PathEnd, UNDEF, MASK64

W = 80                       # python integers are modelled as signed 80-bit values

T = dict(name=24, basicsize=32, itemsize=40, dealloc=48, repr=88, as_number=96, as_sequence=104, as_mapping=112, hash=120, call=128,
         str=136, getattro=144, setattro=152, flags=168, traverse=184, clear=192, richcompare=200, iter=216, iternext=224,
         methods=232, members=240, getset=248, base=256, dict=264, descr_get=272, descr_set=280, dictoffset=288, init=296,
         alloc=304, new=312, free=320, bases=336, mro=344)
TYPE_SIZE = 416
NB = dict(add=0, subtract=8, multiply=16, remainder=24, divmod=32, power=40, negative=48, positive=56, absolute=64, bool=72, invert=80,
          lshift=88, rshift=96, iand=104 - 0, int=128)
NB = {}
for _i, _n in enumerate('add subtract multiply remainder divmod power negative positive absolute bool invert lshift rshift and xor or int '
                        'reserved float inplace_add inplace_subtract inplace_multiply inplace_remainder inplace_power inplace_lshift '
                        'inplace_rshift inplace_and inplace_xor inplace_or floor_divide true_divide inplace_floor_divide '
                        'inplace_true_divide index'.split()):
    NB[_n] = 8 * _i
SQ = {}
for _i, _n in enumerate('length concat repeat item slice ass_item ass_slice contains inplace_concat inplace_repeat'.split()):
    SQ[_n] = 8 * _i
READY, HAVE_GC, HEAP, BASETYPE = 1 << 12, 1 << 14, 1 << 9, 1 << 10
SUBCLASS = dict(int=1 << 24, list=1 << 25, tuple=1 << 26, bytes=1 << 27, str=1 << 28, dict=1 << 29, exc=1 << 30, type=1 << 31)
IMMORTAL = 100000

EXC = {'BaseException': None, 'Exception': 'BaseException', 'TypeError': 'Exception', 'ValueError': 'Exception',
       'OverflowError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'RuntimeError': 'Exception', 'SystemError': 'Exception',
       'AttributeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'StopIteration': 'Exception', 'LookupError': 'Exception',
       'IndexError': 'LookupError', 'KeyError': 'LookupError', 'UnicodeDecodeError': 'ValueError', 'ZeroDivisionError': 'ArithmeticError',
       'MemoryError': 'Exception', 'ImportError': 'Exception', 'Warning': 'Exception', 'DeprecationWarning': 'Warning',
       'AssertionError': 'Exception', 'KeyboardInterrupt': 'BaseException', 'OSError': 'Exception', 'NameError': 'Exception'}
BUILTIN = {'PyLong_Type': ('int', 'int'), 'PyFloat_Type': ('float', None), 'PyUnicode_Type': ('str', 'str'), 'PyBytes_Type': ('bytes', 'bytes'),
           'PyList_Type': ('list', 'list'), 'PyTuple_Type': ('tuple', 'tuple'), 'PyDict_Type': ('dict', 'dict'), 'PyType_Type': ('type', 'type'),
           'PyBaseObject_Type': ('object', None), 'PyBool_Type': ('bool', 'int'), 'PyCFunction_Type': ('builtin_function_or_method', None),
           'PyMethod_Type': ('method', None), 'PyFunction_Type': ('function', None), 'PyModule_Type': ('module', None),
           'PyCapsule_Type': ('PyCapsule', None), '_PyNone_Type': ('NoneType', None), '_PyNotImplemented_Type': ('NotImplementedType', None),
           'PyProperty_Type': ('property', None), 'VhOther_Type': ('other', None), 'PyByteArray_Type': ('bytearray', None)}
NOGIL_OK = {'PyGILState_Ensure', 'PyGILState_Release', 'PyEval_RestoreThread', 'PyEval_ThreadsInitialized', 'PyEval_InitThreads',
            'PyType_GenericNew', 'PyGILState_Check', 'PyMem_Malloc', 'Py_IsInitialized'}


class P(object):
    """content of a python object"""
    __slots__ = ('kind', 'val', 'aux')

    def __init__(self, kind, val=None, aux=None):
        self.kind, self.val, self.aux = kind, val, aux

    def clone(self):
        v, a = self.val, self.aux
        if isinstance(v, (list, dict)):
            v = v.copy()
        if isinstance(a, (list, dict)):
            a = dict((k, (x.copy() if isinstance(x, (dict, list)) else x)) for k, x in a.items()) if isinstance(a, dict) else list(a)
        return P(self.kind, v, a)

    def __repr__(self):
        return 'P(%s,%r)' % (self.kind, self.val)


class State(object):
    def __init__(self):
        self.err = None          # (type, value): owned references
        self.gil = True
        self.depth = []          # PyGILState nesting
        self.log = []            # library events
        self.printed = []        # exceptions printed
        self.seq = {}            # counters for nondeterministic names
        self.exc = []            # C++ exceptions being handled
        self.heap_exc = {}
        self.saved = []
        self.gcobjs = []
        self.vid = 0
        self.printing = 0

    def clone(self):
        s = State()
        s.__dict__.update((k, (v.copy() if isinstance(v, (list, dict)) else v)) for k, v in self.__dict__.items())
        return s


class PyModel(object):
    OVERRIDE = {'Py_INCREF', 'Py_DECREF', '_Py_Dealloc'}

    def __init__(self, files):
        self.st = State()
        self.M = None
        self._fn = {}
        self.oracle = None       # driver: decides nondeterministic library values
        self.M = Machine(files, self)
        self.boot()

    # ------------------------------------------------------------ plumbing
    def guard(self, name, h):
        if not (name.startswith('Py') or name.startswith('_Py')) or name in NOGIL_OK:
            return h

        def g(*a):
            if not self.st.gil:
                raise Violation('gil', '%s called without the interpreter lock' % name)
            return h(*a)
        return g

    def fnaddr(self, name):
        """address of a C-API function, for slots"""
        a = self._fn.get(name)
        if a is None:
            a = self.M.A.get(name)
            if a is None:
                a = self.M.new_region(0, 'func', name).id << 32
                self.M.A[name] = a
                self.M.funcs[a] = self.guard(name, getattr(self, 'h_' + name))
            self._fn[name] = a
        return a

    def rd(self, a, n=8):
        return self.M.load(a, n)

    def wr(self, a, v, n=8):
        self.M.store(a, n, v)

    def boot(self):
        """images of the builtin types, exceptions and singletons"""
        M = self.M
        for n, r in list(M.regions.items()):
            if r.kind == 'global' and r.how == 'extern' and r.name.startswith('_ZTVN10__cxxabiv1'):
                r.size, r.fill, r.how = 64, 0, None
            if r.kind == 'global' and r.how == 'extern' and r.name.startswith('_ZTI'):
                pass
        self.types = {}
        order = ['PyBaseObject_Type', 'PyType_Type', 'PyLong_Type'] + [b for b in BUILTIN if b not in ('PyBaseObject_Type', 'PyType_Type', 'PyLong_Type')]
        for sym in order:
            self.types[sym] = self._sym(sym, TYPE_SIZE)
        for sym in order:
            name, flag = BUILTIN[sym]
            self._mktype(self.types[sym], name, [] if name == 'object' else [self.types['PyLong_Type'] if name == 'bool' else self.types['PyBaseObject_Type']],
                         SUBCLASS.get(flag, 0), self.types['PyType_Type'])
        self.tobj = self.types['PyBaseObject_Type']
        self.ttype = self.types['PyType_Type']
        for t in self.types.values():
            self.wr(t + T['free'], self.fnaddr('PyObject_Free'))
            self.wr(t + T['alloc'], self.fnaddr('PyType_GenericAlloc'))
        self.wr(self.types['PyBaseObject_Type'] + T['new'], self.fnaddr('PyType_GenericNew'))
        self.wr(self.types['PyBaseObject_Type'] + T['init'], self.fnaddr('vh_object_init'))
        self.wr(self.types['PyBaseObject_Type'] + T['dealloc'], self.fnaddr('vh_object_dealloc'))
        self.exc_types = {}
        todo = dict(EXC)
        while todo:
            for n, b in list(todo.items()):
                if b is None or b in self.exc_types:
                    t = self._sym('_PyExc_' + n, TYPE_SIZE)
                    self._mktype(t, n, [self.exc_types[b] if b else self.tobj], SUBCLASS['exc'] | BASETYPE, self.ttype)
                    self.wr(t + T['new'], self.fnaddr('vh_exc_new'))
                    self.exc_types[n] = t
                    del todo[n]
        for n, t in self.exc_types.items():
            v = self._sym('PyExc_' + n, 8)
            self.M.store(v, 8, t)
        self.none = self._single('_Py_NoneStruct', '_PyNone_Type', 'none')
        self.true = self._single('_Py_TrueStruct', 'PyBool_Type', 'bool', 1)
        self.false = self._single('_Py_FalseStruct', 'PyBool_Type', 'bool', 0)
        self.notimpl = self._single('_Py_NotImplementedStruct', '_PyNotImplemented_Type', 'notimpl')
        self.other_t = self.types['VhOther_Type']

    def _sym(self, name, size):
        M = self.M
        if name in M.A:
            a = M.A[name]
            r = M.region(a)
            r.size, r.fill, r.how, r.ro = max(size, r.size), 0, None, False
            return a
        a = M.alloc(size, 'global', name, fill=0)
        M.A[name] = a
        return a

    def _mktype(self, t, name, bases, flags, meta):
        r = self.M.region(t)
        mro = [t]
        for b in bases:
            for x in self.M.regions[b >> 32].py.aux['mro']:
                if x not in mro:
                    mro.append(x)
        r.py = P('type', name, dict(methods={}, getsets={}, bases=list(bases), mro=mro, pydict={}))
        self.wr(t, IMMORTAL)
        self.wr(t + 8, meta)
        nm = self.M.alloc(len(name) + 1, 'const', 'tp_name')
        for i, ch in enumerate(name.encode() + b'\0'):
            self.M.store(nm + i, 1, ch)
        self.wr(t + T['name'], nm)
        self.wr(t + T['basicsize'], 16)
        self.wr(t + T['flags'], flags | READY | BASETYPE)
        if bases:
            self.wr(t + T['base'], bases[0])
        self.wr(t + T['getattro'], self.fnaddr('PyObject_GenericGetAttr'))
        self.wr(t + T['setattro'], self.fnaddr('PyObject_GenericSetAttr'))

    def _single(self, sym, typ, kind, val=None):
        a = self._sym(sym, 24 if kind == 'bool' else 16)
        self.wr(a, IMMORTAL)
        self.wr(a + 8, self.types[typ])
        self.M.region(a).py = P(kind, val)
        return a

    def run_ctors(self):
        g = self.M.A.get('llvm.global_ctors')
        if g:
            r = self.M.regions[g >> 32]
            fs = []
            for off in range(0, r.size, 24):
                fs.append((self.rd(g + off, 4), off, self.rd(g + off + 8)))
            for _, _, f in sorted(fs):
                if f:
                    self.M.icall(f)()

    def extern_global(self, r):
        raise EngineError('external variable %s has no model' % r.name)

    # ------------------------------------------------------------ objects
    def py(self, a, what='use'):
        """content of the object at a (checked)"""
        if type(a) is not int:
            a = self.M.addr(a, what)
        r = self.M.regions.get(a >> 32)
        if a < 4096:
            raise Violation('crash', 'null object passed to the Python API (%s)' % what)
        if r is None or a & 0xffffffff or r.py is None:
            raise Violation('crash', 'not a Python object (%s)' % what)
        if not r.alive:
            raise Violation('ref', 'Python object (%s) used after its last reference was released (%s)' % (r.name, what))
        if r.lazy is not None:
            r.lazy()
            r = self.M.regions[a >> 32]
        return r.py

    def pyw(self, a):
        self.py(a)
        return self.M.region(a).py

    def type_of(self, a):
        self.py(a)
        return self.rd(a + 8)

    def mk(self, tsym, kind, val=None, aux=None, size=16, name=None):
        t = tsym if isinstance(tsym, int) else self.types[tsym]
        a = self.M.alloc(max(size, 16), 'pyobj', name or kind, fill=0)
        self.M.store(a, 8, 1)
        self.M.store(a + 8, 8, t)
        self.M.regions[a >> 32].py = P(kind, val, aux)
        return a

    def refcnt(self, a):
        return self.rd(a)

    def incref(self, a):
        self.py(a, 'incref')
        self.M.store(a, 8, self.M.load(a, 8) + 1)
        return a

    def decref(self, a):
        self.py(a, 'decref')
        n = self.M.load(a, 8)
        if n <= 0:
            raise Violation('ref', 'reference count below zero')
        self.M.store(a, 8, n - 1)
        if n == 1:
            self.dealloc(a)
        elif n - 1 == IMMORTAL // 2:
            raise Violation('ref', 'reference count of a permanent object runs away')

    def dealloc(self, a):
        t = self.rd(a + 8)
        self.M.store(a, 8, 0)
        d = self.rd(t + T['dealloc'])
        if d:
            self.M.icall(d)(a)
            r = self.M.regions.get(a >> 32)
            if r is not None and r.alive:
                if self.refcnt(a) > 0:
                    return               # resurrected
                raise Violation('ref', 'deallocator of %s does not free the object' % self.tname(t))
        else:
            self.free_builtin(a)

    def free_builtin(self, a):
        r = self.M.region(a)
        p = r.py
        if p.kind not in ('list', 'tuple'):
            r.alive = False
        if p.kind in ('list', 'tuple'):
            n = len(p.val)
            its = [self.rd((a + 24 if p.kind == 'tuple' else p.aux) + 8 * i) for i in range(n)]
            r.alive = False
            for x in its:
                if x:
                    self.decref(x)
            if p.aux:
                self.M.region(p.aux).alive = False
        elif p.kind == 'dict':
            for k, v in list(p.val.items()):
                self.decref(v)
            for k in (p.aux or []):
                self.decref(k)
        elif p.kind in ('method', 'builtin', 'exc'):
            for x in p.aux:
                if x:
                    self.decref(x)
        elif p.kind in ('str', 'bytes'):
            if p.aux:
                self.M.region(p.aux).alive = False
        elif p.kind == 'capsule':
            if p.aux:
                self.M.icall(p.aux)(a)

    def tname(self, t):
        p = self.M.regions[t >> 32].py
        return p.val if p is not None else '?'

    def mro(self, t):
        return self.M.regions[t >> 32].py.aux['mro']

    def issub(self, t, b):
        return b in self.mro(t)

    def isinst(self, a, t):
        return self.issub(self.type_of(a), t)

    def kind(self, a):
        return self.py(a).kind

    # values
    def mkint(self, v):
        """v: python int or W-bit vector"""
        return self.mk('PyLong_Type', 'int', v)

    def sval(self, v, w, signed=True):
        """machine integer of w bits -> python integer value"""
        if v is UNDEF:
            raise Violation('crash', 'uninitialised value converted to a Python object')
        if type(v) is int:
            v &= (1 << w) - 1
            return Machine.sgn(v, w) if signed else v
        v = self.M.bv(v, w)
        return z3.simplify(z3.SignExt(W - w, v) if signed else z3.ZeroExt(W - w, v))

    def mval(self, v, w):
        """python integer value -> machine integer (low bits)"""
        if type(v) is int:
            return v & ((1 << w) - 1)
        return self.M.norm(z3.Extract(w - 1, 0, v))

    def mkstr(self, bs, kind='str'):
        """bs: list of bytes (concrete or symbolic)"""
        return self.mk('PyUnicode_Type' if kind == 'str' else 'PyBytes_Type', kind, list(bs))

    def lit(self, s):
        return self.mkstr(list(s.encode('latin1')))

    def buf(self, a):
        """address of the NUL terminated characters of a str/bytes object"""
        p = self.pyw(a)
        if not p.aux:
            p.aux = self.M.alloc(len(p.val) + 1, 'strbuf', 'characters of a Python string')
            for i, b in enumerate(p.val + [0]):
                self.M.store(p.aux + i, 1, b)
        return p.aux

    def mktuple(self, items):
        """steals references"""
        a = self.mk('PyTuple_Type', 'tuple', list(items), size=24 + 8 * len(items))
        self.M.store(a + 16, 8, len(items))
        for i, x in enumerate(items):
            self.M.store(a + 24 + 8 * i, 8, x)
        return a

    def mklist(self, items):
        a = self.mk('PyList_Type', 'list', list(items), size=40)
        self.relist(a)
        return a

    def relist(self, a):
        """memory image of a list"""
        p = self.pyw(a)
        if p.aux:
            self.M.region(p.aux).alive = False
        p.aux = self.M.alloc(8 * len(p.val) or 8, 'listbuf', 'items of a list')
        for i, x in enumerate(p.val):
            self.M.store(p.aux + 8 * i, 8, x)
        self.M.store(a + 16, 8, len(p.val))
        self.M.store(a + 24, 8, p.aux if p.val else 0)

    def items(self, a):
        """items of a list/tuple as they are in memory"""
        p = self.py(a)
        n = len(p.val)
        if p.kind == 'tuple':
            return [self.rd(a + 24 + 8 * i) for i in range(n)]
        return [self.rd(p.aux + 8 * i) for i in range(n)]

    def mkdict(self, d=None):
        return self.mk('PyDict_Type', 'dict', dict(d or {}), [])

    # errors
    def set_err(self, t, v=None, msg=''):
        """t: type address or name; v: owned reference or None"""
        if isinstance(t, str):
            t = self.exc_types[t]
        self.clear_err()
        if v is None:
            v = self.mk_exc(t, msg)
        self.incref(t)
        self.st.err = (t, v)
        return 0

    def mk_exc(self, t, msg='', refs=()):
        a = self.mk(t, 'exc', msg, list(refs), name='exception ' + self.tname(t))
        self.incref_heap(t)
        return a

    def incref_heap(self, t):
        pass

    def clear_err(self):
        if self.st.err:
            t, v = self.st.err
            self.st.err = None
            self.decref(t)
            self.decref(v)

    def err_is(self, name):
        return self.st.err is not None and self.issub(self.st.err[0], self.exc_types[name] if isinstance(name, str) else name)

    # ------------------------------------------------------- attribute access
    def lookup_type(self, t, name):
        """('meth', ml, type) / ('getset', gs, type) / ('obj', addr, type) along the mro"""
        for k in self.mro(t):
            aux = self.M.regions[k >> 32].py.aux
            if name in aux['pydict']:
                return ('obj', aux['pydict'][name], k)
            d = self.rd(k + T['dict'])
            if d:
                dv = self.py(d).val
                if name in dv:
                    return ('obj', dv[name], k)
            if name in aux['methods']:
                return ('meth', aux['methods'][name], k)
            if name in aux['getsets']:
                return ('getset', aux['getsets'][name], k)
        return None

    def instdict(self, o):
        t = self.type_of(o)
        off = self.rd(t + T['dictoffset'])
        if off:
            return o + off
        p = self.py(o)
        if p.kind == 'wrapper' and isinstance(p.aux, dict) and 'dict' in p.aux:
            return None
        return 0

    def generic_getattr(self, o, name):
        t = self.type_of(o)
        p = self.py(o)
        f = self.lookup_type(t, name)
        if f and f[0] == 'getset':
            get, clo = self.rd(f[1] + 8), self.rd(f[1] + 32)
            if not get:
                return self.set_err('AttributeError', msg="attribute '%s' is not readable" % name)
            return self.M.icall(get)(o, clo)
        if p.kind == 'type':
            g = self.lookup_type(o, name)
            if g:
                if g[0] == 'meth':
                    return self.mkbound(g[1], 0 if self.rd(g[1] + 16, 4) & 0x20 else 0, name, owner=o)
                if g[0] == 'obj':
                    return self.incref(g[1])
        slot = self.instdict(o)
        if slot:
            d = self.rd(slot)
            if d is UNDEF:
                raise Violation('crash', 'instance dictionary is uninitialised')
            if d and name in self.py(d).val:
                return self.incref(self.py(d).val[name])
        elif slot is None:
            if name in p.aux['dict']:
                return self.incref(p.aux['dict'][name])
        if p.kind == 'module' and name in p.val:
            return self.incref(p.val[name])
        if f:
            if f[0] == 'meth':
                if self.rd(f[1] + 16, 4) & 0x20:
                    return self.mkbound(f[1], 0, name)
                return self.mkbound(f[1], o, name)
            k = self.py(f[1]).kind
            if k == 'pyfunc':
                m = self.mk('PyMethod_Type', 'method', name, [f[1], o])
                self.incref(f[1]), self.incref(o)
                return m
            return self.incref(f[1])
        return self.set_err('AttributeError', msg="no attribute '%s'" % name)

    def mkbound(self, ml, o, name, owner=None):
        b = self.mk('PyCFunction_Type', 'builtin', ml, [o] if o else [], size=56)
        if o:
            self.incref(o)
        return b

    def generic_setattr(self, o, name, v):
        """v = 0: delete"""
        t = self.type_of(o)
        f = self.lookup_type(t, name)
        if f and f[0] == 'getset':
            st, clo = self.rd(f[1] + 16), self.rd(f[1] + 32)
            if not st:
                self.set_err('AttributeError', msg="attribute '%s' is not writable" % name)
                return -1
            r = self.M.icall(st)(o, v, clo)
            return self.M.sgn(self.M.concretize(r, 32), 32)
        p = self.py(o)
        if p.kind == 'type':
            pw = self.pyw(o)
            self.incref(v)
            pw.aux['pydict'][name] = v
            return 0
        slot = self.instdict(o)
        if slot:
            d = self.rd(slot)
            if d is UNDEF:
                raise Violation('crash', 'instance dictionary is uninitialised')
            if not d:
                d = self.mkdict()
                self.wr(slot, d)
            return self.dict_set(d, name, v)
        if slot is None:
            w = self.pyw(o).aux['dict']
            if v:
                self.incref(v)
            old = w.pop(name, None)
            if v:
                w[name] = v
            elif old is None:
                self.set_err('AttributeError', msg=name)
                return -1
            if old:
                self.decref(old)
            return 0
        self.set_err('AttributeError', msg="no attribute '%s'" % name)
        return -1

    def dict_set(self, d, name, v):
        if not v:
            if name not in self.py(d).val:
                self.set_err('AttributeError', msg=name)
                return -1
            old = self.pyw(d).val.pop(name)
            self.decref(old)
            return 0
        self.incref(v)
        w = self.pyw(d).val
        old = w.get(name)
        w[name] = v
        if old:
            self.decref(old)
        return 0

    def getattr(self, o, name):
        t = self.type_of(o)
        g = self.rd(t + T['getattro'])
        if g and g != self.fnaddr('PyObject_GenericGetAttr'):
            n = self.lit(name)
            r = self.M.icall(g)(o, n)
            self.decref(n)
            return r
        return self.generic_getattr(o, name)

    def setattr(self, o, name, v):
        t = self.type_of(o)
        g = self.rd(t + T['setattro'])
        if g and g != self.fnaddr('PyObject_GenericSetAttr'):
            n = self.lit(name)
            r = self.M.icall(g)(o, n, v)
            self.decref(n)
            return self.M.sgn(self.M.concretize(r, 32), 32)
        return self.generic_setattr(o, name, v)

    def pystr(self, a):
        """concrete text of a str object"""
        p = self.py(a)
        if p.kind != 'str':
            raise EngineError('name is not a string')
        return bytes(p.val).decode('latin1')

    # ------------------------------------------------------------------ calls
    def check_result(self, r, what, ok=None):
        """P09: null iff an exception is set"""
        if r is UNDEF:
            raise Violation('exc', '%s returns an uninitialised value' % what)
        r = self.M.addr(r, 'result')
        if r == 0 and self.st.err is None:
            raise Violation('exc', '%s returned null without setting an exception' % what)
        if r != 0 and self.st.err is not None:
            raise Violation('exc', '%s returned a result while an exception (%s) is set' % (what, self.tname(self.st.err[0])))
        if r:
            self.py(r, 'result of ' + what)
        if not self.st.gil:
            raise Violation('gil', '%s returned without the interpreter lock' % what)
        return r

    def check_int(self, r, what):
        if r is UNDEF:
            raise Violation('exc', '%s returns an uninitialised value' % what)
        r = Machine.sgn(self.M.concretize(r, 32), 32)
        if r < 0 and self.st.err is None:
            raise Violation('exc', '%s failed without setting an exception' % what)
        if r >= 0 and self.st.err is not None:
            raise Violation('exc', '%s succeeded while an exception (%s) is set' % (what, self.tname(self.st.err[0])))
        if not self.st.gil:
            raise Violation('gil', '%s returned without the interpreter lock' % what)
        return r

    def call(self, f, args, kwargs=0):
        """f: callable object; args: tuple address; result checked"""
        p = self.py(f, 'call')
        if p.kind == 'builtin':
            return self.call_ml(p.val, p.aux[0] if p.aux else 0, args, kwargs)
        if p.kind == 'method':
            return self.call_py(p.aux[0], [p.aux[1]] + self.items(args), kwargs)
        if p.kind == 'pyfunc':
            return self.call_py(f, self.items(args), kwargs)
        if p.kind == 'type':
            return self.call_type(f, args, kwargs)
        t = self.type_of(f)
        c = self.rd(t + T['call'])
        if c:
            return self.check_result(self.M.icall(c)(f, args, kwargs), 'tp_call')
        return self.set_err('TypeError', msg='object is not callable')

    def call_ml(self, ml, self_, args, kwargs=0):
        fn, flags = self.rd(ml + 8), self.rd(ml + 16, 4)
        name = self.M.cstr(self.rd(ml))
        fl = flags & ~0x70
        c = self.M.icall(fn)
        n = len(self.py(args).val)
        if fl == 3:
            r = c(self_, args, kwargs)
        elif kwargs and self.py(kwargs).val:
            return self.set_err('TypeError', msg='%s() takes no keyword arguments' % name)
        elif fl == 1:
            r = c(self_, args, *self.surplus(c, 2))
        elif fl == 4:
            if n:
                return self.set_err('TypeError', msg='%s() takes no arguments (%d given)' % (name, n))
            r = c(self_, 0, *self.surplus(c, 2))
        elif fl == 8:
            if n != 1:
                return self.set_err('TypeError', msg='%s() takes exactly one argument' % name)
            r = c(self_, self.items(args)[0])
        else:
            raise Violation('exc', 'method %s is registered with invalid flags 0x%x' % (name, flags))
        return self.check_result(r, name)

    def surplus(self, c, n):
        """the C function may have parameters that this calling convention does not fill"""
        return (UNDEF,) * (getattr(c, 'nargs', n) - n)

    def call_py(self, f, args, kwargs):
        fn = self.py(f).val
        r = fn(self, args)           # owned reference, or 0 with error set
        if r == 0 and self.st.err is None:
            raise EngineError('python callable without result')
        return r

    def call_type(self, t, args, kwargs):
        if t == self.ttype:
            raise EngineError('type() called')
        nw = self.rd(t + T['new'])
        if not nw:
            return self.set_err('TypeError', msg="cannot create '%s' instances" % self.tname(t))
        o = self.check_result(self.M.icall(nw)(t, args, kwargs), 'tp_new')
        if not o:
            return 0
        if self.issub(self.type_of(o), t):
            i = self.rd(self.type_of(o) + T['init'])
            if i:
                r = self.check_int(self.M.icall(i)(o, args, kwargs), '__init__ of ' + self.tname(t))
                if r < 0:
                    e, self.st.err = self.st.err, None
                    self.decref(o)
                    if self.st.err:
                        raise Violation('exc', 'deallocation sets an exception')
                    self.st.err = e
                    return 0
        return o

    # -------------------------------------------------------------- C-API hooks
    def h_Py_INCREF(self, a):
        self.incref(self.M.addr(a, 'incref'))

    h_Py_IncRef = h_Py_INCREF

    def h_Py_DECREF(self, *a):
        self.decref(self.M.addr(a[-1] if len(a) == 1 else a[-1], 'decref'))

    h_Py_DecRef = h_Py_DECREF

    def h__Py_Dealloc(self, a):
        self.dealloc(a)

    def h_PyArg_ParseTuple(self, args, fmt, *out):
        p = self.py(args, 'PyArg_ParseTuple')
        if p.kind != 'tuple':
            self.set_err('SystemError', msg='new style getargs format but argument is not a tuple')
            return 0
        return self.parse(self.items(args), None, fmt, None, out)

    h__PyArg_ParseTuple_SizeT = h_PyArg_ParseTuple

    def h_PyArg_ParseTupleAndKeywords(self, args, kwargs, fmt, kwlist, *out):
        p = self.py(args, 'PyArg_ParseTupleAndKeywords')
        if p.kind != 'tuple':
            raise Violation('crash', 'PyArg_ParseTupleAndKeywords without a tuple')
        names = []
        k = kwlist
        while True:
            q = self.rd(k)
            if q is UNDEF:
                raise Violation('crash', 'keyword list is not terminated')
            if q == 0:
                break
            names.append(self.M.cstr(q))
            k += 8
        return self.parse(self.items(args), kwargs, fmt, names, out)

    h__PyArg_ParseTupleAndKeywords_SizeT = h_PyArg_ParseTupleAndKeywords

    def units(self, fmt):
        """[(unit, optional)]"""
        s = self.M.cstr(fmt)
        out, opt, i = [], False, 0
        while i < len(s):
            c = s[i]
            if c in ':;':
                break
            if c == '|':
                opt = True
                i += 1
                continue
            if c == '$':
                i += 1
                continue
            u = c
            if c == 'e':
                u += s[i + 1]
                i += 1
            while i + 1 < len(s) and s[i + 1] in '#!&*' and c in 'szyOewets'[:]:
                u += s[i + 1]
                i += 1
            out.append((u, opt))
            i += 1
        return out

    def parse(self, pos, kwargs, fmt, names, out):
        units = self.units(fmt)
        out = list(out)
        nreq = len([u for u in units if not u[1]])
        if names is not None and len(names) != len(units):
            self.set_err('SystemError', msg='more argument specifiers than keyword list entries')
            return 0
        kw = dict(self.py(kwargs).val) if kwargs else {}
        if names is None:
            if len(pos) < nreq or len(pos) > len(units):
                self.set_err('TypeError', msg='function takes %d to %d arguments (%d given)' % (nreq, len(units), len(pos)))
                return 0
        elif len(pos) + len(kw) > len(units):
            self.set_err('TypeError', msg='function takes at most %d arguments (%d given)' % (len(units), len(pos) + len(kw)))
            return 0
        used = set()
        for i, (u, opt) in enumerate(units):
            arg = None
            if i < len(pos):
                arg = pos[i]
                if names and names[i] and names[i] in kw:
                    self.set_err('TypeError', msg='argument given by name and position')
                    return 0
            elif names and names[i] in kw:
                arg = kw[names[i]]
                used.add(names[i])
            nout = {'s#': 2, 'z#': 2, 'y#': 2, 'O!': 2, 'O&': 2, 'es': 2, 'et': 2}.get(u, 1)
            tgt, out = out[:nout], out[nout:]
            if len(tgt) < nout:
                raise Violation('crash', 'too few arguments for the format of PyArg_Parse')
            if arg is None:
                if i < nreq:
                    self.set_err('TypeError', msg='required argument missing (pos %d)' % (i + 1))
                    return 0
                continue
            if not self.convert(u, arg, tgt):
                if self.st.err is None:
                    self.set_err('TypeError', msg='argument conversion failed')
                return 0
        if names:
            for k in kw:
                if k not in names:
                    self.set_err('TypeError', msg="'%s' is an invalid keyword argument" % k)
                    return 0
        return 1

    INTS = {'b': (8, 0, 255), 'B': (8, None, None), 'h': (16, -0x8000, 0x7fff), 'H': (16, None, None), 'i': (32, -0x80000000, 0x7fffffff),
            'I': (32, None, None), 'l': (64, -1 << 63, (1 << 63) - 1), 'k': (64, None, None), 'L': (64, -1 << 63, (1 << 63) - 1),
            'K': (64, None, None), 'n': (64, -1 << 63, (1 << 63) - 1)}

    def decide(self, c):
        return self.M.x.decide(c) if not isinstance(c, (bool, int)) else bool(c)

    def inrange(self, v, lo, hi):
        if type(v) is int:
            return lo <= v <= hi
        return self.decide(z3.And(v >= z3.BitVecVal(lo, W), v <= z3.BitVecVal(hi, W)))

    def convert(self, u, a, out):
        p = self.py(a, 'argument')
        k = p.kind
        if u in self.INTS:
            w, lo, hi = self.INTS[u]
            if k == 'other' and (p.aux or {}).get('index') and u not in ('k', 'K'):
                n = p.aux['index'](self)
                if not n:
                    return 0
                r = self.convert(u, n, out)
                self.decref(n)
                return r
            if k not in ('int', 'bool'):
                self.set_err('TypeError', msg='an integer is required')
                return 0
            v = self.toint(a)
            if lo is not None and not self.inrange(v, lo, hi):
                self.set_err('OverflowError', msg='out of range for ' + u)
                return 0
            self.wr(out[0], self.mval(v, w), w // 8)
            return 1
        if u in ('f', 'd'):
            d = self.tofloat(a)
            if d is None:
                self.set_err('TypeError', msg='must be real number')
                return 0
            if u == 'd':
                self.wr(out[0], d, 8)
            else:
                self.wr(out[0], self.M.fptrunc(d, 64, 32), 4)
            return 1
        if u == 'p':
            r = self.truth(a)
            if r < 0:
                return 0
            self.wr(out[0], r, 4)
            return 1
        if u == 'c':
            if k not in ('bytes', 'bytearray') or len(p.val) != 1:
                self.set_err('TypeError', msg='must be a byte string of length 1')
                return 0
            self.wr(out[0], p.val[0], 1)
            return 1
        if u in ('s', 'z', 's#', 'z#', 'y', 'y#'):
            if u[0] == 'z' and k == 'none':
                self.wr(out[0], 0)
                if len(u) == 2:
                    self.wr(out[1], 0)
                return 1
            if k == 'str' and u[0] != 'y' or k == 'bytes' and (len(u) == 2 or u[0] == 'y'):
                if len(u) == 1:
                    for b in p.val:
                        if self.decide(b == 0):
                            self.set_err('ValueError', msg='embedded null character')
                            return 0
                self.wr(out[0], self.buf(a))
                if len(u) == 2:
                    self.wr(out[1], len(p.val))
                return 1
            self.set_err('TypeError', msg='must be str')
            return 0
        if u == 'O':
            self.wr(out[0], a)
            return 1
        if u == 'O!':
            t = out[0]
            if self.py(t).kind != 'type':
                raise Violation('crash', 'O! with something that is not a type')
            if not self.isinst(a, t):
                self.set_err('TypeError', msg='must be %s, not %s' % (self.tname(t), self.tname(self.type_of(a))))
                return 0
            self.wr(out[1], a)
            return 1
        if u == 'O&':
            r = self.M.icall(out[0])(a, out[1])
            r = self.M.concretize(r, 32)
            if r and self.st.err is not None:
                raise Violation('exc', 'a converter succeeded with an exception set')
            return 1 if r else 0
        if u == 'S':
            if k != 'bytes':
                self.set_err('TypeError', msg='must be bytes')
                return 0
            self.wr(out[0], a)
            return 1
        if u == 'U':
            if k != 'str':
                self.set_err('TypeError', msg='must be str')
                return 0
            self.wr(out[0], a)
            return 1
        raise EngineError('format unit %s' % u)

    def toint(self, a):
        return self.py(a).val

    def tofloat(self, a):
        """bits of a double or None"""
        p = self.py(a)
        if p.kind == 'float':
            return p.val
        if p.kind in ('int', 'bool'):
            if type(p.val) is int:
                return self.M.fbits(float(p.val), 64)
            return self.M.uf('sitofp', W, 64, p.val)
        return None

    def truth(self, a):
        """1, 0 or -1 with error"""
        p = self.py(a)
        k = p.kind
        if k == 'none':
            return 0
        if k in ('int', 'bool'):
            return int(self.decide(p.val != 0))
        if k == 'float':
            return int(self.decide((p.val << 1) & MASK64 != 0 if type(p.val) is int else p.val << 1 != 0))
        if k in ('str', 'bytes', 'list', 'tuple', 'dict'):
            return int(len(p.val) > 0)
        if k == 'other':
            b = p.aux or {}
            if b.get('bool') == 'raise':
                self.set_err('ValueError', msg='truth value is ambiguous')
                return -1
            return b.get('bool', 1)
        t = self.type_of(a)
        nb = self.rd(t + T['as_number'])
        if nb and self.rd(nb + NB['bool']):
            return self.check_int(self.M.icall(self.rd(nb + NB['bool']))(a), 'nb_bool')
        sq = self.rd(t + T['as_sequence'])
        if sq and self.rd(sq + SQ['length']):
            r = self.M.icall(self.rd(sq + SQ['length']))(a)
            r = self.M.sgn(self.M.concretize(r, 64), 64)
            return -1 if r < 0 else int(r > 0)
        return 1

    def h_PyObject_IsTrue(self, a):
        return self.truth(a) & 0xffffffff

    def get_iter(self, o):
        t = self.type_of(o)
        f = self.rd(t + T['iter'])
        if not f:
            return self.set_err('TypeError', msg='object is not iterable')
        return self.M.icall(f)(o)

    def h_PyObject_IsInstance(self, a, t):
        p = self.py(a)
        if not self.isinst(a, t) and p.kind == 'other' and p.aux and 'class' in p.aux:
            k = p.aux['class']
            if not k:
                self.set_err('ValueError', msg='class')
                return -1
            return int(self.issub(k, t))
        return int(self.isinst(a, t))

    def h_PyType_IsSubtype(self, a, b):
        return int(self.issub(a, b))

    def h_PyObject_TypeCheck(self, a, t):
        return int(self.isinst(a, t))

    # build
    def h_Py_BuildValue(self, fmt, *args):
        return self.build(self.M.cstr(fmt), list(args))

    h__Py_BuildValue_SizeT = h_Py_BuildValue

    def build(self, s, args):
        vals, rest, pend = self.build_seq(s, 0, args, '')
        n = len(vals)
        if any(v == 0 for v in vals):
            for v in vals:
                if v:
                    self.decref(v)
            if self.st.err is None:
                self.set_err('SystemError', msg='NULL object passed to Py_BuildValue')
            return 0
        if n == 0:
            return self.incref(self.none)
        if n == 1:
            return vals[0]
        return self.mktuple(vals)

    def build_seq(self, s, i, args, end):
        vals = []
        bad = False
        while i < len(s) and s[i] != end:
            c = s[i]
            i += 1
            if c in ' ,:\t':
                continue
            if c in '([':
                sub, i, args = self.build_seq(s, i, args, ')' if c == '(' else ']')
                i += 1
                if any(v == 0 for v in sub):
                    for v in sub:
                        if v:
                            self.decref(v)
                    vals.append(0)
                else:
                    vals.append(self.mktuple(sub) if c == '(' else self.mklist(sub))
                continue
            if c not in 'iIhHbBlkLKnfdszyONScCp':
                raise EngineError('build format unit %s' % c)
            if not args:
                raise Violation('crash', 'too few arguments for the format of Py_BuildValue')
            a = args.pop(0)
            if c in 'iIhHbBlkLKn':
                w, sg = {'i': (32, 1), 'I': (32, 0), 'h': (32, 1), 'H': (32, 1), 'b': (32, 1), 'B': (32, 1), 'l': (64, 1), 'k': (64, 0),
                         'L': (64, 1), 'K': (64, 0), 'n': (64, 1)}[c]
                v = self.sval(a, w, bool(sg))
                if c == 'H':
                    v = v & 0xffff if type(v) is int else v
                vals.append(self.mkint(v))
            elif c in 'fd':
                if a is UNDEF:
                    raise Violation('crash', 'uninitialised value converted to a Python object')
                vals.append(self.mk('PyFloat_Type', 'float', a))
            elif c in 'szy':
                ln = None
                if i < len(s) and s[i] == '#':
                    i += 1
                    ln = args.pop(0)
                    if ln is UNDEF:
                        raise Violation('crash', 'uninitialised length')
                    ln = Machine.sgn(self.M.concretize(ln, 64), 64)
                a = self.M.addr(a, 'string')
                if a == 0:
                    vals.append(self.incref(self.none))
                    continue
                if ln is None or ln < 0:
                    bs = self.M.symcstr(a)
                else:
                    bs = self.M.bytes_at(a, ln)
                if c == 'y':
                    vals.append(self.mkstr(bs, 'bytes'))
                else:
                    vals.append(self.decode(bs))
            elif c in 'ONS':
                a = self.M.addr(a, 'object')
                if i < len(s) and s[i] == '&':
                    raise EngineError('O& in Py_BuildValue')
                if a == 0:
                    if self.st.err is None:
                        self.set_err('SystemError', msg='NULL object passed to Py_BuildValue')
                    vals.append(0)
                else:
                    if c != 'N':
                        self.incref(a)
                    else:
                        self.py(a, 'Py_BuildValue')
                    vals.append(a)
            elif c == 'c':
                vals.append(self.mkstr([self.M.trunc(a, 32, 8)], 'bytes'))
            elif c == 'p':
                vals.append(self.incref(self.true if self.M.concretize(a, 32) else self.false))
            else:
                raise EngineError('build format unit C')
        if end == '':
            return vals, i, args
        return vals, i, args

    def decode(self, bs):
        """utf-8 decoding; exact for strings of up to two bytes or all ASCII"""
        bs = list(bs)
        if all(type(b) is int and b < 128 for b in bs):
            return self.mkstr(bs)
        ok = z3.And(*[z3.ULT(self.M.bv(b, 8), 128) for b in bs])
        if len(bs) == 2:
            b0, b1 = self.M.bv(bs[0], 8), self.M.bv(bs[1], 8)
            ok = z3.Or(ok, z3.And(z3.UGE(b0, 0xc2), z3.ULE(b0, 0xdf), z3.UGE(b1, 0x80), z3.ULE(b1, 0xbf)))
        elif len(bs) > 2:
            if any(type(b) is int and b >= 128 for b in bs):
                raise EngineError('long non-ASCII text')
        if self.decide(ok):
            return self.mkstr(bs)
        return self.set_err('UnicodeDecodeError', msg='invalid utf-8')

    # numbers
    def num(self, v, w, signed):
        return self.mkint(self.sval(v, w, signed))

    def h_PyLong_FromLong(self, v):
        return self.num(v, 64, True)

    def h_PyLong_FromUnsignedLong(self, v):
        return self.num(v, 64, False)

    h_PyLong_FromUnsignedLongLong = h_PyLong_FromUnsignedLong
    h_PyLong_FromSize_t = h_PyLong_FromUnsignedLong
    h_PyLong_FromLongLong = h_PyLong_FromLong
    h_PyLong_FromSsize_t = h_PyLong_FromLong

    def h_PyBool_FromLong(self, v):
        if v is UNDEF:
            raise Violation('crash', 'uninitialised value converted to a Python object')
        c = self.M.bv(v, 64) != 0 if type(v) is not int else v != 0
        return self.incref(self.true if self.decide(c) else self.false)

    def h_PyFloat_FromDouble(self, v):
        if v is UNDEF:
            raise Violation('crash', 'uninitialised value converted to a Python object')
        return self.mk('PyFloat_Type', 'float', v)

    def as_long(self, a, lo, hi):
        p = self.py(a)
        if p.kind not in ('int', 'bool'):
            self.set_err('TypeError', msg='an integer is required')
            return MASK64
        if not self.inrange(p.val, lo, hi):
            self.set_err('OverflowError', msg='Python int too large')
            return MASK64
        return self.mval(p.val, 64)

    def h_PyLong_AsLong(self, a):
        return self.as_long(a, -1 << 63, (1 << 63) - 1)

    h_PyLong_AsLongLong = h_PyLong_AsLong
    h_PyLong_AsSsize_t = h_PyLong_AsLong

    def h_PyLong_AsUnsignedLong(self, a):
        return self.as_long(a, 0, MASK64)

    h_PyLong_AsUnsignedLongLong = h_PyLong_AsUnsignedLong
    h_PyLong_AsSize_t = h_PyLong_AsUnsignedLong

    def h_PyFloat_AsDouble(self, a):
        d = self.tofloat(a)
        if d is None:
            self.set_err('TypeError', msg='must be real number')
            return self.M.fbits(-1.0, 64)
        return d

    def h_PyNumber_Check(self, a):
        k = self.kind(a)
        return int(k in ('int', 'bool', 'float'))

    # strings
    def h_PyUnicode_FromString(self, s):
        return self.decode(self.M.symcstr(s))

    def h_PyUnicode_FromStringAndSize(self, s, n):
        return self.decode(self.M.bytes_at(s, Machine.sgn(self.M.concretize(n, 64), 64)))

    def h_PyBytes_FromString(self, s):
        return self.mkstr(self.M.symcstr(s), 'bytes')

    def h_PyUnicode_AsUTF8(self, a):
        if self.kind(a) != 'str':
            return self.set_err('TypeError', msg='bad argument type')
        return self.buf(a)

    def h_PyUnicode_AsUTF8AndSize(self, a, n):
        if self.kind(a) != 'str':
            return self.set_err('TypeError', msg='bad argument type')
        if n:
            self.wr(n, len(self.py(a).val))
        return self.buf(a)

    def h_PyObject_Str(self, a):
        p = self.py(a)
        if p.kind == 'str':
            return self.incref(a)
        if p.kind == 'exc':
            return self.lit(p.val if isinstance(p.val, str) else '?')
        t = self.type_of(a)
        s = self.rd(t + T['str'])
        if s:
            return self.check_result(self.M.icall(s)(a), 'tp_str')
        return self.lit('<object>')

    h_PyObject_Repr = h_PyObject_Str

    # containers
    def size_of(self, a, kinds):
        p = self.py(a)
        if p.kind not in kinds:
            self.set_err('SystemError', msg='bad internal call')
            return -1
        return len(p.val)

    def h_PyList_Size(self, a):
        return self.size_of(a, ('list',)) & MASK64

    def h_PyTuple_Size(self, a):
        return self.size_of(a, ('tuple',)) & MASK64

    def h_PyDict_Size(self, a):
        return self.size_of(a, ('dict',)) & MASK64

    def h_PyList_New(self, n):
        n = self.M.concretize(n, 64)
        return self.mklist([0] * n)

    def h_PyTuple_New(self, n):
        n = self.M.concretize(n, 64)
        return self.mktuple([0] * n)

    def setitem(self, a, i, v, kind):
        p = self.pyw(a)
        i = Machine.sgn(self.M.concretize(i, 64), 64)
        if p.kind != kind or not 0 <= i < len(p.val):
            if v:
                self.decref(v)
            self.set_err('IndexError', msg='assignment index out of range')
            return 0xffffffff
        old = self.items(a)[i]
        self.wr((a + 24 if kind == 'tuple' else p.aux) + 8 * i, v)
        if old:
            self.decref(old)
        return 0

    def sync(self, a):
        """content follows the memory image (PyList_SET_ITEM writes there)"""
        p = self.pyw(a)
        p.val = self.items(a)

    def list_clear(self, a):
        p = self.pyw(a)
        old = self.items(a)
        p.val = []
        self.relist(a)
        for x in old:
            self.decref(x)

    def h_PyList_SetItem(self, a, i, v):
        return self.setitem(a, i, v, 'list')

    def h_PyTuple_SetItem(self, a, i, v):
        return self.setitem(a, i, v, 'tuple')

    h_PyList_SET_ITEM = h_PyList_SetItem

    def h_PyList_GetItem(self, a, i):
        i = Machine.sgn(self.M.concretize(i, 64), 64)
        its = self.items(a)
        if self.kind(a) != 'list' or not 0 <= i < len(its):
            return self.set_err('IndexError', msg='list index out of range')
        return its[i]

    def h_PyTuple_GetItem(self, a, i):
        i = Machine.sgn(self.M.concretize(i, 64), 64)
        if self.kind(a) != 'tuple':
            return self.set_err('SystemError', msg='bad internal call')
        its = self.items(a)
        if not 0 <= i < len(its):
            return self.set_err('IndexError', msg='tuple index out of range')
        return its[i]

    def h_PyList_Append(self, a, v):
        if self.kind(a) != 'list':
            self.set_err('SystemError', msg='bad internal call')
            return 0xffffffff
        self.incref(v)
        self.sync(a)
        self.pyw(a).val.append(v)
        self.relist(a)
        return 0

    def same(self, x, y):
        """x == y as truth value; -1 with an error"""
        if x == y:
            return 1
        px, py_ = self.py(x), self.py(y)
        if px.kind in ('int', 'bool') and py_.kind in ('int', 'bool'):
            return int(self.decide(px.val == py_.val))
        if px.kind == py_.kind == 'str':
            return int(len(px.val) == len(py_.val) and all(self.decide(a == b) for a, b in zip(px.val, py_.val)))
        r = self.richcompare(x, y, 2)
        if not r:
            return -1
        n = self.truth(r)
        self.decref(r)
        return n

    def h_PySequence_Contains(self, a, v):
        if self.kind(a) not in ('list', 'tuple'):
            return self.contains(a, v) & 0xffffffff
        for x in self.items(a):
            n = self.same(x, v)
            if n:
                return n & 0xffffffff
        return 0

    # operators
    def slot(self, o, table, name):
        """function of a slot of the type of o, or 0"""
        t = self.type_of(o)
        a = self.rd(t + T[table])
        return a and self.rd(a + (NB if table == 'as_number' else SQ)[name])

    def cslot(self, f, *args):
        c = self.M.icall(f)
        n = getattr(c, 'nargs', len(args))
        return c(*((args + (UNDEF,) * n)[:n]))

    def h_PyObject_RichCompare(self, x, y, op):
        return self.richcompare(x, y, self.M.concretize(op, 32))

    def h_PyObject_RichCompareBool(self, x, y, op):
        op = self.M.concretize(op, 32)
        if x == y and op in (2, 3):
            return int(op == 2)
        r = self.richcompare(x, y, op)
        if not r:
            return 0xffffffff
        n = self.truth(r)
        self.decref(r)
        return n & 0xffffffff

    def richcompare(self, x, y, op):
        tx, ty = self.type_of(x), self.type_of(y)
        fx, fy = self.rd(tx + T['richcompare']), self.rd(ty + T['richcompare'])
        swap = (4, 5, 2, 3, 0, 1)[op]
        tries = [(fx, x, y, op), (fy, y, x, swap)]
        if tx != ty and fy and self.issub(ty, tx):
            tries = [tries[1], tries[0]]
        for f, a, b, o in tries:
            if f:
                r = self.check_result(self.cslot(f, a, b, o), 'comparison')
                if r != self.notimpl:
                    return r
                self.decref(r)
        if op in (2, 3):
            return self.incref(self.true if (x == y) == (op == 2) else self.false)
        return self.set_err('TypeError', msg='comparison not supported')

    def binary1(self, v, w, name):
        fv = self.slot(v, 'as_number', name)
        fw = self.slot(w, 'as_number', name) if self.type_of(w) != self.type_of(v) else 0
        if fw == fv:
            fw = 0
        tries = [fv, fw]
        if fv and fw and self.issub(self.type_of(w), self.type_of(v)):
            tries = [fw, fv]
        for f in tries:
            if f:
                r = self.check_result(self.cslot(f, v, w), 'operator ' + name)
                if r != self.notimpl:
                    return r
                self.decref(r)
        return self.incref(self.notimpl)

    def repeat(self, f, s, n):
        if self.kind(n) not in ('int', 'bool'):
            return self.set_err('TypeError', msg="can't multiply sequence by non-int")
        i = self.h_PyLong_AsLong(n)
        if self.st.err is not None:
            return 0
        return self.check_result(self.cslot(f, s, i), 'sequence repeat')

    def binop(self, v, w, op):
        """op: '+' ... or '+=' ..."""
        name = {'+': 'add', '-': 'subtract', '*': 'multiply', '/': 'true_divide'}[op[0]]
        if len(op) == 2:
            f = self.slot(v, 'as_number', 'inplace_' + name)
            if f:
                r = self.check_result(self.cslot(f, v, w), 'operator ' + op)
                if r != self.notimpl:
                    return r
                self.decref(r)
        r = self.binary1(v, w, name)
        if r != self.notimpl:
            return r
        self.decref(r)
        if name == 'add':
            f = (self.slot(v, 'as_sequence', 'inplace_concat') if len(op) == 2 else 0) or self.slot(v, 'as_sequence', 'concat')
            if f:
                return self.check_result(self.cslot(f, v, w), 'sequence concatenation')
        if name == 'multiply':
            f = (self.slot(v, 'as_sequence', 'inplace_repeat') if len(op) == 2 else 0) or self.slot(v, 'as_sequence', 'repeat')
            if f:
                return self.repeat(f, v, w)
            f = self.slot(w, 'as_sequence', 'repeat')
            if f:
                return self.repeat(f, w, v)
        return self.set_err('TypeError', msg='unsupported operand type(s) for ' + op)

    def unop(self, v, name):
        f = self.slot(v, 'as_number', name)
        if f:
            return self.check_result(self.cslot(f, v), 'operator ' + name)
        return self.set_err('TypeError', msg='bad operand type for unary operator')

    def length(self, o):
        """64 bit value, or None with an error"""
        f = self.slot(o, 'as_sequence', 'length')
        if not f:
            self.set_err('TypeError', msg='object has no len()')
            return None
        r = self.cslot(f, o)
        if r is UNDEF:
            raise Violation('exc', 'len() returns an uninitialised value')
        neg = self.decide(r >> 63 != 0 if type(r) is int else self.M.bv(r, 64) < 0)
        if neg:
            if self.st.err is None:
                raise Violation('exc', 'len() failed without setting an exception')
            return None
        if self.st.err is not None:
            raise Violation('exc', 'len() succeeded while an exception (%s) is set' % self.tname(self.st.err[0]))
        return r

    def seqindex(self, o, k, slot):
        """(function, 64 bit index) of a subscript, or None with an error"""
        f = self.slot(o, 'as_sequence', slot)
        if not f:
            self.set_err('TypeError', msg='object is not subscriptable')
            return None
        if self.kind(k) not in ('int', 'bool'):
            self.set_err('TypeError', msg='sequence index must be integer')
            return None
        v = self.py(k).val
        if not self.inrange(v, -1 << 63, (1 << 63) - 1):
            self.set_err('IndexError', msg='cannot fit into an index-sized integer')
            return None
        i = self.mval(v, 64)
        if self.slot(o, 'as_sequence', 'length') and self.decide(v < 0):
            n = self.length(o)
            if n is None:
                return None
            i = (i + n) & MASK64 if type(i) is int and type(n) is int else self.M.bv(i, 64) + self.M.bv(n, 64)
        return f, i

    def getitem(self, o, k):
        fi = self.seqindex(o, k, 'item')
        return self.check_result(self.cslot(fi[0], o, fi[1]), 'subscript') if fi else 0

    def setitem(self, o, k, v):
        """v 0: delete; 0 or -1"""
        fi = self.seqindex(o, k, 'ass_item')
        if not fi:
            return -1
        r = self.check_int(self.cslot(fi[0], o, fi[1], v), 'subscript assignment')
        if r > 0:
            raise Violation('exc', 'subscript assignment failed without setting an exception')
        return r

    def contains(self, o, v):
        """0, 1, or -1 with an error"""
        f = self.slot(o, 'as_sequence', 'contains')
        if not f:
            raise EngineError('membership without sq_contains')
        r = self.check_int(self.cslot(f, o, v), 'membership test')
        if r > 1:
            raise Violation('spec', 'a membership test returns neither true nor false')
        return r

    def str_of(self, o):
        f = self.rd(self.type_of(o) + T['str'])
        if not f:
            raise EngineError('str() of an object without tp_str')
        r = self.check_result(self.cslot(f, o), 'str()')
        if r and self.kind(r) != 'str':
            raise Violation('spec', 'str() returns no string')
        return r

    def h_PySequence_Size(self, a):
        return len(self.py(a).val)

    h_PyObject_Size = h_PySequence_Size

    def h_PyDict_New(self):
        return self.mkdict()

    def h_PyDict_SetItemString(self, d, k, v):
        if self.kind(d) != 'dict':
            self.set_err('SystemError', msg='bad internal call')
            return 0xffffffff
        return self.dict_set(d, self.M.cstr(k), v) & 0xffffffff

    def h_PyDict_GetItemString(self, d, k):
        return self.py(d).val.get(self.M.cstr(k), 0)

    # errors
    def h_PyErr_SetString(self, t, s):
        self.set_err(t, msg=bytes(b if type(b) is int else 63 for b in self.M.symcstr(s)).decode('latin1'))
        self.st.msg = self.M.symcstr(s)

    def h_PyErr_SetObject(self, t, v):
        if v:
            self.py(v, 'PyErr_SetObject')
        if v and self.kind(v) == 'exc' and self.isinst(v, t):
            self.incref(v)
            self.set_err(t, v)
        else:
            if v:
                self.incref(v)
            self.set_err(t, self.mk_exc(t, v, [v] if v else []))

    def h_PyErr_SetNone(self, t):
        self.set_err(t)

    def h_PyErr_Format(self, t, f, *a):
        self.set_err(t, msg=self.M.cstr(f))
        return 0

    def h_PyErr_Clear(self):
        self.clear_err()

    def h_PyErr_Occurred(self):
        return self.st.err[0] if self.st.err else 0

    def h_PyErr_ExceptionMatches(self, t):
        if self.st.err is None:
            raise Violation('crash', 'PyErr_ExceptionMatches without an exception set')
        return int(self.issub(self.st.err[0], t))

    def h_PyErr_GivenExceptionMatches(self, e, t):
        if not e:
            return 0
        k = e if self.kind(e) == 'type' else self.type_of(e)
        return int(self.issub(k, t))

    def h_PyErr_Fetch(self, t, v, tb):
        if self.st.err:
            et, ev = self.st.err
            self.st.err = None
            self.wr(t, et), self.wr(v, ev), self.wr(tb, 0)
        else:
            self.wr(t, 0), self.wr(v, 0), self.wr(tb, 0)

    def h_PyErr_Restore(self, t, v, tb):
        self.clear_err()
        if t:
            if not v:
                v = self.mk_exc(t)
            self.st.err = (t, v)
        if tb:
            self.decref(tb)

    def h_PyErr_NormalizeException(self, t, v, tb):
        pass

    def h_PyErr_Print(self):
        if self.st.err is None:
            raise Violation('exc', 'PyErr_Print without an exception set')
        self.st.printed.append(self.tname(self.st.err[0]))
        self.clear_err()

    def h_PyErr_WriteUnraisable(self, o):
        self.h_PyErr_Print()

    def h_PyErr_WarnEx(self, cat, s, lvl):
        self.st.log.append(('warning', self.st.gil, [self.M.cstr(s)]))
        w = self.oracle.warning() if self.oracle else 0
        if w:
            self.set_err(cat, msg=self.M.cstr(s))
            return 0xffffffff
        return 0

    def h_PyErr_Warn(self, cat, s):
        return self.h_PyErr_WarnEx(cat, s, 1)

    def h_PyErr_NoMemory(self):
        return self.set_err('MemoryError')

    def h_PyErr_BadArgument(self):
        self.set_err('TypeError')
        return 0

    def h_PyErr_NewException(self, name, base, d):
        t = self.M.alloc(TYPE_SIZE, 'global', 'exception type', fill=0)
        b = base or self.exc_types['Exception']
        bases = [b] if self.kind(b) == 'type' else self.items(b)
        self._mktype(t, self.M.cstr(name).split('.')[-1], bases, SUBCLASS['exc'] | HEAP, self.ttype)
        self.wr(t + T['new'], self.fnaddr('vh_exc_new'))
        return t

    def h_Py_FatalError(self, s):
        raise Violation('crash', 'Py_FatalError: ' + self.M.cstr(s))

    h__Py_FatalErrorFunc = lambda self, f, s: self.h_Py_FatalError(s)

    # objects
    def h_PyObject_GetAttrString(self, o, n):
        return self.check_result(self.getattr(o, self.M.cstr(n)), 'getattr')

    def h_PyObject_SetAttrString(self, o, n, v):
        return self.setattr(o, self.M.cstr(n), v) & 0xffffffff

    def h_PyObject_HasAttrString(self, o, n):
        r = self.getattr(o, self.M.cstr(n))
        if r:
            self.decref(r)
            return 1
        self.clear_err()
        return 0

    def h_PyObject_GetAttr(self, o, n):
        return self.check_result(self.getattr(o, self.pystr(n)), 'getattr')

    def h_PyObject_GenericGetAttr(self, o, n):
        return self.generic_getattr(o, self.pystr(n))

    def h_PyObject_GenericSetAttr(self, o, n, v):
        return self.generic_setattr(o, self.pystr(n), v) & 0xffffffff

    def h_PyObject_SetAttr(self, o, n, v):
        return self.setattr(o, self.pystr(n), v) & 0xffffffff

    def h_PyObject_CallMethod(self, o, name, fmt, *args):
        m = self.getattr(o, self.M.cstr(name))
        if not m:
            # arguments passed with N are consumed all the same
            return 0
        s = self.M.cstr(fmt) if fmt else ''
        v = self.build(s, list(args)) if s else self.mktuple([])
        if not v:
            self.decref(m)
            return 0
        if self.kind(v) != 'tuple':
            v = self.mktuple([v])
        r = self.check_result(self.call(m, v), 'call')
        self.decref(v)
        self.decref(m)
        return r

    h__PyObject_CallMethod_SizeT = h_PyObject_CallMethod

    def h_PyObject_CallObject(self, f, a):
        if a:
            return self.check_result(self.call(f, a), 'call')
        t = self.mktuple([])
        r = self.check_result(self.call(f, t), 'call')
        self.decref(t)
        return r

    def h_PyObject_Call(self, f, a, k):
        return self.check_result(self.call(f, a, k), 'call')

    def h_PyObject_CallFunctionObjArgs(self, f, *args):
        l = []
        for x in args:
            if x == 0:
                break
            l.append(self.incref(x))
        t = self.mktuple(l)
        r = self.check_result(self.call(f, t), 'call')
        self.decref(t)
        return r

    def h_PyCallable_Check(self, a):
        return int(self.kind(a) in ('builtin', 'method', 'pyfunc', 'type'))

    def new_instance(self, t, size, fill):
        p = self.py(t)
        if p.kind != 'type' or not self.rd(t + T['flags']) & READY:
            raise Violation('crash', 'instance created of a type that is not ready (%s)' % p.val)
        a = self.M.alloc(size, 'pyobj', 'instance of ' + self.tname(t), fill=fill)
        self.M.store(a, 8, 1)
        self.M.store(a + 8, 8, t)
        aux = {}
        if self.rd(t + T['flags']) & HEAP:
            self.incref(t)
            if not self.rd(t + T['dictoffset']):
                aux['dict'] = {}
        self.M.regions[a >> 32].py = P('wrapper', None, aux)
        if self.rd(t + T['flags']) & HAVE_GC:
            self.st.gcobjs.append(a)
        return a

    def h__PyObject_New(self, t):
        if self.rd(t + T['flags']) & HAVE_GC:
            raise Violation('crash', 'PyObject_New used for a type with garbage collection')
        return self.new_instance(t, self.rd(t + T['basicsize']), None)

    def h__PyObject_GC_New(self, t):
        if not self.rd(t + T['flags']) & HAVE_GC:
            raise Violation('crash', 'PyObject_GC_New used for a type without garbage collection')
        a = self.new_instance(t, self.rd(t + T['basicsize']), None)
        self.st.gcobjs.remove(a)      # tracked by PyObject_GC_Track only
        return a

    def h_PyType_GenericAlloc(self, t, n):
        return self.new_instance(t, self.rd(t + T['basicsize']), 0)

    def h_PyType_GenericNew(self, t, a, k):
        return self.M.icall(self.rd(t + T['alloc']))(t, 0)

    def h_vh_exc_new(self, t, a, k):
        its = self.items(a)
        for x in its:
            self.incref(x)
        return self.mk_exc(t, '', its)

    def h_vh_object_init(self, o, a, k):
        return 0

    def h_vh_object_dealloc(self, o):
        self.free_builtin(o)

    def h_PyObject_Free(self, a):
        r = self.M.region(a)
        if not r.alive:
            raise Violation('ref', 'object freed twice')
        if a in self.st.gcobjs:
            self.st.gcobjs.remove(a)
        r.alive = False

    def h_PyObject_GC_Del(self, a):
        self.h_PyObject_Free(a)

    def h_PyObject_GC_UnTrack(self, a):
        if a in self.st.gcobjs:
            self.st.gcobjs.remove(a)

    def h_PyObject_GC_Track(self, a):
        if a not in self.st.gcobjs:
            self.st.gcobjs.append(a)

    # types
    INHERIT = ('dealloc', 'repr', 'as_number', 'as_sequence', 'as_mapping', 'hash', 'call', 'str', 'getattro', 'setattro', 'richcompare',
               'iter', 'iternext', 'init', 'alloc', 'new', 'free', 'descr_get', 'descr_set', 'dictoffset')

    def h_PyType_Ready(self, t):
        r = self.M.region(t)
        if self.rd(t + T['flags']) & READY:
            return 0
        name = self.M.cstr(self.rd(t + T['name'])).split('.')[-1]
        base = self.rd(t + T['base']) or self.tobj
        bs = self.rd(t + T['bases'])
        bases = self.items(bs) if bs else [base]
        if not self.rd(t + T['base']):
            self.wr(t + T['base'], bases[0] if bs else base)
            base = self.rd(t + T['base'])
        for b in bases + [base]:
            if b == 0 or self.M.regions[b >> 32].py is None or not self.rd(b + T['flags']) & READY:
                # CPython readies the base first
                self.h_PyType_Ready(b)
        mro = self.c3(t, bases)
        if not self.rd(t + 8):
            self.wr(t + 8, self.rd(base + 8))
        if self.rd(t) < IMMORTAL:
            self.wr(t, IMMORTAL)
        aux = dict(methods={}, getsets={}, bases=list(bases), mro=mro, pydict={})
        m = self.rd(t + T['methods'])
        while m and self.rd(m):
            aux['methods'].setdefault(self.M.cstr(self.rd(m)), m)
            m += 32
        g = self.rd(t + T['getset'])
        while g and self.rd(g):
            aux['getsets'].setdefault(self.M.cstr(self.rd(g)), g)
            g += 40
        r = self.M.region(t)
        r.py = P('type', name, aux)
        if not self.rd(t + T['dict']):
            self.wr(t + T['dict'], self.mkdict())
        fl = self.rd(t + T['flags']) | READY
        if not fl & HAVE_GC and self.rd(base + T['flags']) & HAVE_GC and not self.rd(t + T['traverse']) and not self.rd(t + T['clear']):
            fl |= HAVE_GC
            self.wr(t + T['traverse'], self.rd(base + T['traverse']))
            self.wr(t + T['clear'], self.rd(base + T['clear']))
        for k in mro[1:]:
            fl |= self.rd(k + T['flags']) & (0xff << 24)
        self.wr(t + T['flags'], fl)
        if self.rd(t + T['basicsize']) == 0:
            self.wr(t + T['basicsize'], self.rd(base + T['basicsize']))
        if self.rd(t + T['basicsize']) < self.rd(base + T['basicsize']):
            raise Violation('crash', 'instance size of %s is smaller than that of its base' % name)
        own_hash = self.rd(t + T['hash']) or self.rd(t + T['richcompare'])
        for k in mro[1:]:
            for s in self.INHERIT:
                if s in ('hash', 'richcompare') and own_hash:
                    continue
                if s == 'free' and not self.rd(t + T['free']):
                    tg, kg = fl & HAVE_GC, self.rd(k + T['flags']) & HAVE_GC
                    if tg and not kg:
                        self.wr(t + T['free'], self.fnaddr('PyObject_GC_Del'))
                        continue
                if not self.rd(t + T[s]) and self.rd(k + T[s]):
                    self.wr(t + T[s], self.rd(k + T[s]))
            for s, table in (('as_number', NB), ('as_sequence', SQ)):
                a, b = self.rd(t + T[s]), self.rd(k + T[s])
                if a and b and a != b:
                    for off in table.values():
                        if not self.rd(a + off) and self.rd(b + off):
                            self.wr(a + off, self.rd(b + off))
        return 0

    def c3(self, t, bases):
        seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
        out = [t]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in q[1:] for q in seqs):
                    h = s[0]
                    break
            else:
                raise EngineError('inconsistent bases')
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    s.pop(0)
        return out

    def make_subclass(self, base, name, methods):
        """a class statement: class name(base) with python methods"""
        bases = [base] if isinstance(base, int) else list(base)
        t = self.M.alloc(TYPE_SIZE, 'global', 'class ' + name, fill=0)
        b = bases[0]
        for x in bases:
            if not self.rd(x + T['flags']) & BASETYPE:
                raise Violation('spec', 'class %s cannot be subclassed' % self.tname(x))
        nm = self.M.alloc(len(name) + 1, 'const', 'tp_name')
        for i, ch in enumerate(name.encode() + b'\0'):
            self.M.store(nm + i, 1, ch)
        self.wr(t, 1)
        self.wr(t + 8, self.rd(b + 8))
        self.wr(t + T['name'], nm)
        self.wr(t + T['base'], b)
        if len(bases) > 1:
            self.wr(t + T['bases'], self.mktuple(bases))
        for s in ('basicsize',):
            self.wr(t + T[s], self.rd(b + T[s]))
        self.wr(t + T['dealloc'], self.fnaddr('vh_subtype_dealloc'))
        self.wr(t + T['flags'], HEAP | BASETYPE | HAVE_GC)
        self.wr(t + T['traverse'], self.fnaddr('vh_subtype_traverse'))
        self.wr(t + T['clear'], self.fnaddr('vh_subtype_clear'))
        self.wr(t + T['alloc'], self.fnaddr('PyType_GenericAlloc'))
        self.wr(t + T['free'], self.fnaddr('PyObject_GC_Del'))
        d = self.mkdict()
        self.wr(t + T['dict'], d)
        fns = []
        for k, f in methods.items():
            fo = self.mk('PyFunction_Type', 'pyfunc', f)
            self.pyw(d).val[k] = fo
            fns.append(fo)
        n = self.h_PyType_Ready(t)
        self.wr(t, IMMORTAL)
        for off in ('dealloc', 'alloc', 'free', 'traverse', 'clear'):
            pass
        return t

    def real_base(self, t, slot, ours):
        k = t
        while k and self.rd(k + T[slot]) == ours:
            k = self.rd(k + T['base'])
        return k

    def h_vh_subtype_dealloc(self, o):
        t = self.type_of(o)
        if o in self.st.gcobjs:
            self.st.gcobjs.remove(o)
        p = self.pyw(o)
        if isinstance(p.aux, dict) and p.aux.get('dict'):
            d, p.aux['dict'] = p.aux['dict'], {}
            for v in d.values():
                self.decref(v)
        b = self.real_base(t, 'dealloc', self.fnaddr('vh_subtype_dealloc'))
        # the base deallocator frees through the tp_free of the actual type
        self.M.icall(self.rd(b + T['dealloc']))(o)
        self.decref(t)

    def h_vh_subtype_traverse(self, o, visit, arg):
        p = self.py(o)
        if isinstance(p.aux, dict):
            for v in p.aux.get('dict', {}).values():
                self.M.icall(visit)(v, arg)
        b = self.real_base(self.type_of(o), 'traverse', self.fnaddr('vh_subtype_traverse'))
        f = self.rd(b + T['traverse']) if b else 0
        if f:
            return self.M.icall(f)(o, visit, arg)
        return 0

    def h_vh_subtype_clear(self, o):
        b = self.real_base(self.type_of(o), 'clear', self.fnaddr('vh_subtype_clear'))
        f = self.rd(b + T['clear']) if b else 0
        if f:
            self.M.icall(f)(o)
        p = self.pyw(o)
        if isinstance(p.aux, dict) and p.aux.get('dict'):
            d, p.aux['dict'] = p.aux['dict'], {}
            for v in d.values():
                self.decref(v)
        return 0

    # garbage collection: CPython's algorithm over the tracked objects
    def collect(self):
        """number of collected objects"""
        total = 0
        for rnd in range(4):
            objs = list(self.st.gcobjs)
            refs = dict((o, self.refcnt(o)) for o in objs)
            seen = []

            def visit(a, arg):
                a = self.M.addr(a, 'visit')
                self.py(a, 'tp_traverse')
                seen.append(a)
                return 0
            vf = self.M.new_region(0, 'func', 'visit').id << 32
            self.M.funcs[vf] = visit

            def referents(o):
                del seen[:]
                p = self.py(o)
                if p.kind in ('list', 'tuple'):
                    seen.extend(x for x in self.items(o) if x)
                else:
                    tr = self.rd(self.type_of(o) + T['traverse'])
                    if not tr:
                        raise Violation('ref', 'type with garbage collection has no tp_traverse')
                    self.M.icall(tr)(o, vf, 0)
                return list(seen)
            lists = [a << 32 for a, r in self.M.regions.items() if r.kind == 'pyobj' and r.alive and r.py is not None and r.py.kind in ('list', 'tuple')]
            dicts = [a << 32 for a, r in self.M.regions.items() if r.kind == 'pyobj' and r.alive and r.py is not None and r.py.kind in ('dict', 'method', 'builtin')]
            for l in lists + dicts:
                refs[l] = self.refcnt(l)

            def referents2(o):
                p = self.py(o)
                if p.kind == 'dict':
                    return list(p.val.values()) + list(p.aux or [])
                if p.kind in ('method', 'builtin'):
                    return [x for x in p.aux if x]
                return referents(o)
            for o in list(refs):
                for x in referents2(o):
                    if x in refs:
                        refs[x] -= 1
                        if refs[x] < 0:
                            raise Violation('ref', 'tp_traverse of %s visits references it does not own' % self.tname(self.type_of(o)))
            reach = set()
            todo = [o for o in refs if refs[o] > 0]
            while todo:
                o = todo.pop()
                if o in reach:
                    continue
                reach.add(o)
                todo.extend(x for x in referents2(o) if x in refs)
            garbage = [o for o in refs if o not in reach]
            del self.M.funcs[vf]
            if not garbage:
                return total
            total += len(garbage)
            for o in garbage:
                self.incref(o)
            for o in garbage:
                if self.M.regions[o >> 32].alive:
                    p = self.py(o)
                    if p.kind == 'list':
                        its = self.items(o)
                        self.pyw(o).val = []
                        self.relist(o)
                        for x in its:
                            self.decref(x)
                    elif p.kind == 'dict':
                        w = self.pyw(o)
                        its = list(w.val.values())
                        w.val = {}
                        for x in its:
                            self.decref(x)
                    elif p.kind == 'wrapper':
                        c = self.rd(self.type_of(o) + T['clear'])
                        if c:
                            self.M.icall(c)(o)
            for o in garbage:
                self.decref(o)
        return total

    # modules
    def h_PyModule_Create2(self, d, ver):
        m = self.mk('PyModule_Type', 'module', {}, {}, name='module')
        self.wr(m, IMMORTAL)
        nm = self.M.cstr(self.rd(d + 40))
        self.pyw(m).aux['name'] = nm
        ml = self.rd(d + 64)
        while ml and self.rd(ml):
            f = self.mkbound(ml, m, '')
            self.pyw(m).val[self.M.cstr(self.rd(ml))] = f
            ml += 32
        self.modules = getattr(self, 'modules', {})
        self.modules[nm] = m
        return m

    def h_PyModule_AddObject(self, m, n, o):
        if not o:
            self.set_err('SystemError', msg='PyModule_AddObject() needs non-NULL value')
            return 0xffffffff
        self.py(o)
        old = self.pyw(m).val.get(self.M.cstr(n))
        self.pyw(m).val[self.M.cstr(n)] = o
        if old:
            self.decref(old)
        return 0

    def h_PyModule_AddIntConstant(self, m, n, v):
        return self.h_PyModule_AddObject(m, n, self.mkint(self.sval(v, 64)))

    def h_PyModule_AddStringConstant(self, m, n, s):
        return self.h_PyModule_AddObject(m, n, self.h_PyUnicode_FromString(s))

    def h_PyModule_GetDict(self, m):
        raise EngineError('PyModule_GetDict')

    def h_PyImport_ImportModule(self, n):
        nm = self.M.cstr(n)
        if nm in getattr(self, 'modules', {}):
            return self.incref(self.modules[nm])
        return self.set_err('ImportError', msg=nm)

    def h_PyCapsule_New(self, p, n, d):
        c = self.mk('PyCapsule_Type', 'capsule', p, d)
        return c

    def h_PyCapsule_GetPointer(self, c, n):
        if self.kind(c) != 'capsule':
            return self.set_err('ValueError')
        return self.py(c).val

    # threads
    def h_PyEval_ThreadsInitialized(self):
        return 1

    def h_PyEval_InitThreads(self):
        return None

    def h_PyEval_SaveThread(self):
        self.st.gil = False
        return 0xdead0000 << 16

    def h_PyEval_RestoreThread(self, ts):
        if ts is UNDEF or ts != 0xdead0000 << 16:
            raise Violation('gil', 'PyEval_RestoreThread of a thread state that was not saved')
        if self.st.gil:
            raise Violation('gil', 'PyEval_RestoreThread while holding the interpreter lock')
        self.st.gil = True

    def h_PyGILState_Ensure(self):
        self.st.depth.append(self.st.gil)
        held = self.st.gil
        self.st.gil = True
        return 0 if held else 1

    def h_PyGILState_Release(self, s):
        if s is UNDEF:
            raise Violation('gil', 'PyGILState_Release of an uninitialised state')
        s = self.M.concretize(s, 32)
        if not self.st.depth:
            raise Violation('gil', 'PyGILState_Release without PyGILState_Ensure')
        if not self.st.gil:
            raise Violation('gil', 'PyGILState_Release without the interpreter lock')
        prev = self.st.depth.pop()
        if (0 if prev else 1) != s:
            raise Violation('gil', 'PyGILState_Release of the wrong state')
        self.st.gil = prev

    # ------------------------------------------------------------- C and C++
    def h_malloc(self, n):
        return self.M.alloc(self.M.concretize(n, 64), 'heap', 'malloc')

    def h_calloc(self, n, k):
        return self.M.alloc(self.M.concretize(n, 64) * self.M.concretize(k, 64), 'heap', 'malloc', fill=0)

    def _free(self, p, how):
        p = self.M.addr(p, 'free')
        if p == 0:
            return
        r = self.M.regions.get(p >> 32)
        if r is None or r.kind != 'heap' or p & 0xffffffff:
            raise Violation('free', '%s of something that was not allocated (%s)' % ({'malloc': 'free', 'new': 'delete', 'new[]': 'delete[]'}[how], r.kind if r else 'invalid address'))
        if not r.alive:
            raise Violation('free', 'C++ object or memory block released twice')
        if r.name != how:
            raise Violation('free', 'memory from %s released as if from %s' % (r.name, how))
        self.M.region(p).alive = False

    def h_free(self, p):
        self._free(p, 'malloc')

    def _new(self, n, how):
        n = self.M.concretize(n, 64)
        re = self.oracle.reuse(n, how) if self.oracle else None
        if re:
            r = self.M.region(re)
            r.alive, r.cells, r.fill = True, {}, None
            return re
        return self.M.alloc(n, 'heap', how)

    def h__Znwm(self, n):
        return self._new(n, 'new')

    def h__Znam(self, n):
        return self._new(n, 'new[]')

    def h__ZdlPv(self, p, *a):
        self._free(p, 'new')

    h__ZdlPvm = h__ZdlPv

    def h__ZdaPv(self, p, *a):
        self._free(p, 'new[]')

    h__ZdaPvm = h__ZdaPv

    def h_strlen(self, s):
        return len(self.M.symcstr(s))

    def h_strcmp(self, a, b):
        x, y = self.M.symcstr(a), self.M.symcstr(b)
        for i in range(min(len(x), len(y))):
            if self.decide(x[i] != y[i]):
                if type(x[i]) is int and type(y[i]) is int:
                    return 1 if x[i] > y[i] else MASK64 >> 32
                return 1 if self.decide(z3.UGT(self.M.bv(x[i], 8), self.M.bv(y[i], 8))) else MASK64 >> 32
        return 0 if len(x) == len(y) else (1 if len(x) > len(y) else MASK64 >> 32)

    def h_strdup(self, s):
        bs = self.M.symcstr(s) + [0]
        p = self.M.alloc(len(bs), 'heap', 'malloc')
        for i, b in enumerate(bs):
            self.M.store(p + i, 1, b)
        return p

    def h_memcpy(self, d, s, n):
        return self.M.memcpy(d, s, n)

    h_memmove = h_memcpy

    def h_memset(self, d, c, n):
        return self.M.memset(d, c, n)

    def h_abort(self):
        raise Violation('crash', 'abort() called')

    def h___assert_fail(self, *a):
        raise Violation('crash', 'assertion failed: ' + self.M.cstr(a[0]))

    def h___cxa_atexit(self, *a):
        return 0

    def h___cxa_guard_acquire(self, g):
        return 0 if self.rd(g, 1) else 1

    def h___cxa_guard_release(self, g):
        self.wr(g, 1, 1)

    def h___cxa_guard_abort(self, g):
        pass

    def h___cxa_pure_virtual(self, *a):
        raise Violation('crash', 'pure virtual method called')

    def h___cxa_allocate_exception(self, n):
        return self.M.alloc(n, 'cxxexc', 'C++ exception')

    def h___cxa_free_exception(self, p):
        self.M.region(p).alive = False

    def h___cxa_throw(self, p, ti, dtor):
        self.st.heap_exc[p] = (ti, dtor)
        raise CxxThrow(p, ti)

    def h___cxa_begin_catch(self, p):
        e = self.M.cur_exc[p]
        self.st.exc.append(p)
        return getattr(e, 'adj', p)

    def h___cxa_end_catch(self):
        if not self.st.exc:
            return
        p = self.st.exc.pop()
        if p in self.st.exc or p in self.st.saved:
            return
        ti, dtor = self.st.heap_exc[p]
        if dtor:
            self.M.icall(dtor)(p)
        self.M.region(p).alive = False

    def h___cxa_rethrow(self):
        if not self.st.exc:
            raise Violation('crash', 'rethrow without an exception')
        p = self.st.exc[-1]
        self.st.saved.append(p)
        raise CxxThrow(p, self.st.heap_exc[p][0])

    def h___clang_call_terminate(self, *a):
        raise Violation('crash', 'std::terminate: exception leaves a function that must not throw')

    def h__ZSt9terminatev(self):
        raise Violation('crash', 'std::terminate')

    OVERRIDE = OVERRIDE | {'__clang_call_terminate'}

    def h___cxa_bad_typeid(self):
        raise Violation('crash', 'typeid of a null pointer')

    def h___cxa_bad_cast(self):
        raise Violation('crash', 'bad dynamic cast')

    def h___dynamic_cast(self, p, src, dst, hint):
        M = self.M
        if p == 0:
            return 0
        vt = M.load(p, 8)
        vr = M.regions.get(vt >> 32)
        if vr is not None and vr.name.startswith('_ZTVN10__cxxabiv1'):
            want = M.regions[dst >> 32].name.replace('_ZTI', '_ZTV')
            names = [vr.name]
            if 'si_class' in vr.name or 'vmi_class' in vr.name:
                names.append('_ZTVN10__cxxabiv117__class_type_infoE')
            return p if want in names else 0
        ti = M.load((vt - 8) & MASK64, 8)
        top = (p + M.load((vt - 16) & MASK64, 8)) & MASK64
        r = M.upcast(top, ti, dst)
        return r[0] if len(r) == 1 else 0

    # ------------------------------------------------------- library oracle
    def h_vh_ev(self, name):
        self.st.log.append((self.M.cstr(name), self.st.gil, []))

    def _ev(self, v):
        self.st.log[-1][2].append(v)

    def h_vh_i(self, v):
        if v is UNDEF:
            raise Violation('crash', 'the wrapped function received an uninitialised value')
        self._ev(self.sval(v, 64))

    def h_vh_u(self, v):
        if v is UNDEF:
            raise Violation('crash', 'the wrapped function received an uninitialised value')
        self._ev(self.sval(v, 64, False))

    def h_vh_d(self, v):
        if v is UNDEF:
            raise Violation('crash', 'the wrapped function received an uninitialised value')
        self._ev(v)

    h_vh_f = h_vh_d

    def h_vh_s(self, p, n):
        p = self.M.addr(p, 'string')
        n = self.M.concretize(n, 64)
        self._ev(tuple(self.M.bytes_at(p, n)))

    def h_vh_z(self, p):
        p = self.M.addr(p, 'string')
        self._ev(None if p == 0 else tuple(self.M.symcstr(p)))

    def h_vh_o(self, o):
        self._ev(('obj', self.M.addr(o, 'object')))

    def h_vh_gil(self):
        self._ev(int(self.st.gil))

    def name(self, p):
        n = self.M.cstr(p)
        k = self.st.seq.get(n, 0)
        self.st.seq[n] = k + 1
        return '%s#%d' % (n, k)

    def h_vh_int(self, name, bits):
        """fresh integer of that many bits (low bits of a 64-bit value)"""
        return self.M.zext(self.M.x.var(self.name(name), bits), bits, 64) if bits < 64 else self.M.x.var(self.name(name), 64)

    def h_vh_choose(self, name, n):
        return self.M.x.choose(self.name(name), n)

    def h_vh_id(self):
        self.st.vid += 1
        return self.st.vid

    def h_vh_incref(self, o):
        self.incref(o)

    def h_vh_gil_release(self):
        """library code running in another thread: no lock held"""
        self.st.saved.append(('gil', self.st.gil))
        self.st.gil = False

    def h_vh_gil_restore(self):
        k, g = self.st.saved.pop()
        self.st.gil = g
