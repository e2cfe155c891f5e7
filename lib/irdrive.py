"""Scenarios over generated extension modules: explored symbolically on the LLVM IR (SymDriver) and
replayed in a really compiled module (realdrive.RealDriver). A scenario only talks to the driver API."""
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import zlib
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CORPUS = os.path.join(VERIF, 'corpus')
sys.path.insert(0, HERE)
sys.path.insert(0, CORPUS)
import z3
import framework
from irsym import Violation, EngineError, CxxThrow, PathEnd, UNDEF, MASK64, Machine
import pymodel
from pymodel import P, PyModel, W, T, IMMORTAL

PY_INC = ['-I/opt/pybindgen-tools/include', '-I/usr/include/python3.12']


class BuildError(Exception):
    pass


def run(cmd, cwd, **kw):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    return p.stdout


def generate(corpus, work):
    """runs the real generator on a corpus module and writes mod.cc, lib.h, lib.cc"""
    os.makedirs(work, exist_ok=True)
    code = ('import sys; sys.path.insert(0, %r); sys.path.insert(0, %r); import %s as c; c.generate("mod.cc"); '
            'open("lib.h", "w").write(c.header()); open("lib.cc", "w").write(c.source()); import json; '
            'json.dump(dict([(n, getattr(c, n, None)) for n in ("CXX", "IR_FLAGS", "EXTRA")], NAME=c.__name__[1:]), open("options.json", "w"))' % (framework.REPO, CORPUS, corpus))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    run([framework.PY_REPO, '-c', code], work, env=env)
    shutil.copy(os.path.join(CORPUS, 'vh.h'), work)


def option(work, name, default):
    """build option of the corpus module whose work directory this is"""
    try:
        with open(os.path.join(work, 'options.json')) as f:
            return json.load(f).get(name) or default
    except FileNotFoundError:
        return default


def compile_ir(work):
    ps = []
    extra = [f for _, f in option(work, 'EXTRA', [])]
    for f in ['mod', 'lib'] + extra:
        ps.append(subprocess.Popen(['clang++', '-O0', '-S', '-emit-llvm', '-std=gnu++14', '-nostdinc++', '-isystem', os.path.join(CORPUS, 'mini'), '-I.']
                                   + PY_INC + option(work, 'IR_FLAGS', []) + ['-w', f + '.cc', '-o', f + '.ll'], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    for p in ps:
        out = p.communicate()[0]
        if p.returncode:
            raise BuildError('the generated code does not compile:\n' + out[-3000:])
    if extra:
        # the interpreter loads extension modules with RTLD_LOCAL: each keeps its own copy of what both define
        mods = [(option(work, 'NAME', ''), 'mod')] + option(work, 'EXTRA', [])
        for n, f in mods:
            run(['opt', '-S', '-passes=internalize', '-internalize-public-api-list=PyInit_' + n, '-o', f + '.i.ll', f + '.ll'], work)
        run(['llvm-link', '-S', '-o', 'mod.ll'] + [f + '.i.ll' for _, f in mods], work)
    return [os.path.join(work, 'mod.ll'), os.path.join(work, 'lib.ll')]


def compile_real(work, name, asan=False):
    fl = ['-fsanitize=address', '-shared-libasan'] if asan else []
    d = os.path.join(work, 'asan' if asan else 'real')
    os.makedirs(d, exist_ok=True)
    ps = []
    extra = [f for _, f in option(work, 'EXTRA', [])]
    for f in ['mod.cc', 'lib.cc', os.path.join(CORPUS, 'real_rt.cc')] + [f + '.cc' for f in extra]:
        o = os.path.join(d, os.path.basename(f) + '.o')
        ps.append(subprocess.Popen([option(work, 'CXX', 'clang++') if not asan else 'clang++', '-O0', '-g', '-fPIC', '-std=gnu++14', '-I.'] + PY_INC + fl + ['-w', '-c', f, '-o', o], cwd=work,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    for p in ps:
        out = p.communicate()[0]
        if p.returncode:
            raise BuildError(out[-3000:])
    link = lambda name, objs: run(['clang++', '-shared'] + fl + ['-o', name + '.so'] + objs, d)
    if extra:
        link('lib', ['lib.cc.o', 'real_rt.cc.o'])
        for n, f in [(name, 'mod')] + option(work, 'EXTRA', []):
            link(n, [f + '.cc.o'])
    else:
        link(name, ['mod.cc.o', 'lib.cc.o', 'real_rt.cc.o'])
    return d


# ------------------------------------------------------------------ symbolic driver

class PyRaise(Exception):
    """raised by a scenario's Python override"""
    def __init__(self, name, msg):
        Exception.__init__(self, name)
        self.name, self.msg = name, msg


class Obj(object):
    """handle of a python object the scenario owns a reference to"""
    __slots__ = ('a', 'live')

    def __init__(self, a):
        self.a, self.live = a, True


class SymDriver(object):
    real = False

    def __init__(self, pm, mod):
        self.pm, self.mod, self.x, self.M = pm, mod, pm.M.x, pm.M
        self.owned = []
        self.n_kinds = 0
        self.rec = []            # what was observed, for comparison with the real module
        self.xname = None
        self.warn_mode = None
        self.reuse_addr = []
        pm.oracle = self

    # oracle callbacks of the model
    def warning(self):
        if self.warn_mode == 'any':
            self.nwarn = getattr(self, 'nwarn', 0) + 1
            return self.x.choose('warning#%d' % self.nwarn, 2)
        return 0

    def reuse(self, n, how):
        for i, (a, k, h) in enumerate(self.reuse_addr):
            if k == n and h == how and not self.M.regions[a >> 32].alive:
                del self.reuse_addr[i]
                return a
        return None

    # values ---------------------------------------------------------------
    def ivar(self, name, bits=W):
        return self.x.var(name, bits)

    def decide(self, c):
        return self.pm.decide(c)

    def choose(self, name, n):
        return self.x.choose(name, n)

    def assume(self, c):
        self.x.assume(c)

    def inrange(self, v, lo, hi):
        if type(v) is int:
            return lo <= v <= hi
        return z3.And(v >= z3.BitVecVal(lo, W), v <= z3.BitVecVal(hi, W))

    def wrap(self, v, w, signed):
        """value of the w-bit C integer with the same low bits"""
        return self.pm.sval(self.pm.mval(v, w), w, bool(signed))

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not isinstance(a, tuple) or not isinstance(b, tuple) or len(a) != len(b):
                return False
            r = [self.eq(x, y) for x, y in zip(a, b)]
            if all(isinstance(x, bool) for x in r):
                return all(r)
            return z3.And(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in r])
        if type(a) in (int, str, bool) and type(b) in (int, str, bool):
            return a == b
        if z3.is_bool(a) or z3.is_bool(b):
            return self.M.boolean(a) == self.M.boolean(b)
        w = a.size() if not type(a) is int else b.size()
        return z3.simplify(self.M.bv(a, w) == self.M.bv(b, w))

    def ne0(self, v):
        return v != 0

    def ltu(self, b, k):
        return b < k if type(b) is int and type(k) is int else z3.ULT(self.M.bv(b, 8 if type(b) is int else b.size()), self.M.bv(k, 8 if type(b) is int else b.size()))

    def lts(self, a, b):
        if type(a) is int and type(b) is int:
            return a < b
        return self.M.bv(a, W) < self.M.bv(b, W)

    def cint(self, name, bits, signed):
        v = self.pm.sval(self.x.var(name, bits), bits, bool(signed))
        return v

    def nn(self, v):
        return v

    def xor(self, v, n):
        return v ^ n

    def widen(self, b):
        return b if type(b) is int else z3.ZeroExt(W - 8, b)

    def made(self, name):
        return self.x.choices[name]

    def objid(self, o):
        return ('obj', o.a)

    def f32(self, d):
        return self.M.fptrunc(d, 64, 32)

    def f64(self, f):
        return self.M.fpext(f, 32, 64)

    def const_f64(self, d):
        return self.M.fbits(d, 64)

    def int_as_f64(self, v):
        return self.M.fbits(float(v), 64) if type(v) is int else self.M.uf('sitofp', W, 64, v)

    def and_(self, *c):
        c = [x for x in c if x is not True]
        if any(x is False for x in c):
            return False
        return z3.And(*c) if c else True

    def or_(self, *c):
        c = [x for x in c if x is not False]
        if any(x is True for x in c):
            return True
        return z3.Or(*c) if c else False

    def not_(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def require(self, c, msg, kind='spec'):
        if not self.x.valid(c):
            raise Violation(kind, msg)

    def fail(self, msg, kind='spec'):
        raise Violation(kind, msg)

    # objects ----------------------------------------------------------------
    def own(self, a):
        o = Obj(a)
        self.owned.append(o)
        return o

    def drop(self, o):
        if o.live:
            o.live = False
            self.pm.decref(o.a)

    def keep(self, o):
        """another handle of the same object"""
        return self.own(self.pm.incref(o.a))

    def none(self):
        return self.own(self.pm.incref(self.pm.none))

    def int(self, v):
        return self.own(self.pm.mkint(v))

    def float(self, bits):
        return self.own(self.pm.mk('PyFloat_Type', 'float', bits))

    def str(self, s):
        return self.own(self.pm.mkstr(list(s.encode()) if isinstance(s, str) else list(s)))

    def list(self, items):
        return self.own(self.pm.mklist([self.pm.incref(i.a) for i in items]))

    def tuple(self, items):
        return self.own(self.pm.mktuple([self.pm.incref(i.a) for i in items]))

    def make(self, name, kind):
        """python object of that kind with a symbolic value"""
        pm = self.pm
        a = pm.mk('VhOther_Type', 'other', None, {}, size=64)
        self._fill(a, name, kind)
        return self.own(a)

    def _fill(self, a, name, kind):
        pm, M, x = self.pm, self.M, self.x
        p = None
        if kind == 'int':
            t, p = 'PyLong_Type', P('int', x.var(name, W))
        elif kind == 'bool':
            t, p = 'PyBool_Type', P('bool', z3.ZeroExt(W - 1, x.var(name + '.b', 1)))
        elif kind == 'float':
            t, p = 'PyFloat_Type', P('float', x.var(name + '.d', 64))
        elif kind.startswith('str'):
            n = int(kind[3:])
            bs = [x.var('%s.s%d' % (name, i), 8) for i in range(n)]
            for b in bs:
                x.assume(z3.ULT(b, 128))
            t, p = 'PyUnicode_Type', P('str', bs)
        elif kind.startswith('bytes'):
            n = int(kind[5:])
            t, p = 'PyBytes_Type', P('bytes', [x.var('%s.s%d' % (name, i), 8) for i in range(n)])
        elif kind == 'other':
            t, p = 'VhOther_Type', P('other', None, {})
        elif kind == 'badbool':
            t, p = 'VhOther_Type', P('other', None, {'bool': 'raise'})
        else:
            raise EngineError('kind ' + kind)
        r = M.region(a)
        r.lazy = None
        r.py = p
        r.name = name
        M.store(a + 8, 8, pm.types[t])

    def liar(self, cls):
        """object whose __class__ is cls although its type is not (None: reading __class__ raises)"""
        return self.own(self.pm.mk('VhOther_Type', 'other', None, {'class': cls.a if cls is not None else 0}))

    def arg(self, name, kinds):
        """python object of a kind chosen when it is first looked at (None at once)"""
        kinds = list(kinds)
        if 'none' in kinds:
            if self.x.choose(name + '.none', 2):
                return self.none()
            kinds.remove('none')
        if len(kinds) == 1:
            return self.make(name, kinds[0])
        pm, M = self.pm, self.M
        a = pm.mk('VhOther_Type', 'other', None, {}, size=64)
        r = M.regions[a >> 32]

        def lazy():
            M.region(a).lazy = None
            k = self.x.choose(name + '.kind', len(kinds))
            self._fill(a, name, kinds[k])
        r.lazy = lazy
        return self.own(a)

    def kind(self, o):
        return self.pm.py(o.a).kind

    def is_(self, o, p):
        return o.a == p.a

    def type_is(self, o, t):
        return self.pm.type_of(o.a) == t.a

    def ival(self, o):
        return self.pm.py(o.a).val

    dval = ival

    def sval(self, o):
        return tuple(self.pm.py(o.a).val)

    def items(self, o):
        """items of a tuple or list as owned handles"""
        return [self.own(self.pm.incref(a)) for a in self.pm.items(o.a)]

    def truth_fails(self, o):
        p = self.pm.py(o.a)
        return p.kind == 'other' and (p.aux or {}).get('bool') == 'raise'

    def truth(self, o):
        """(value, ) of truth as condition; for kinds with no side effects"""
        p = self.pm.py(o.a)
        k = p.kind
        if k in ('int', 'bool'):
            return p.val != 0
        if k == 'none':
            return False
        if k == 'float':
            return (p.val << 1) & MASK64 != 0 if type(p.val) is int else p.val << 1 != 0
        if k in ('str', 'bytes', 'list', 'tuple', 'dict'):
            return len(p.val) > 0
        return True

    # operations ---------------------------------------------------------------
    def module(self, name=None):
        return Obj(self.pm.modules[name or self.mod])

    def _result(self, r, what):
        r = self.pm.check_result(r, what)
        if r:
            return self.own(r)
        return self._exc()

    def _exc(self):
        t, v = self.pm.st.err
        self.xname = self.pm.tname(t)
        m = self.pm.py(v).val
        self.xmsg = m if isinstance(m, str) else None
        self.xtype = t
        self.xval = self.own(v)
        self.pm.st.err = None
        self.pm.decref(t)
        return None

    def has_err(self):
        return self.pm.st.err is not None

    def call(self, f, args=(), kw=None):
        """new handle, or None with self.xname set"""
        pm = self.pm
        t = pm.mktuple([pm.incref(a.a) for a in args])
        k = 0
        if kw:
            k = pm.mkdict(dict((n, pm.incref(a.a)) for n, a in kw.items()))
        r = pm.call(f.a, t, k)
        self.xname = None
        r = self._result(r, 'call')
        pm.decref(t)
        if k:
            pm.decref(k)
        return r

    def getattr(self, o, name):
        return self._result(self.pm.getattr(o.a, name), "reading attribute '%s'" % name)

    def setattr(self, o, name, v):
        """True, or False with xname; v None: delete"""
        self.xname = None
        r = self.pm.setattr(o.a, name, v.a if v is not None else 0)
        r = self.pm.check_int(r & 0xffffffff, "setting attribute '%s'" % name)
        if r < 0:
            self._exc()
            return False
        return True

    def callm(self, o, name, *args):
        m = self.getattr(o, name)
        if m is None:
            return None
        r = self.call(m, args)
        self.drop(m)
        return r

    def subclass(self, cls, name, methods):
        """Python class derived from a wrapped one; methods: name -> f(handles) -> handle, may call throw()"""
        def wrap(f):
            def g(pm, args):
                hs = [self.own(pm.incref(a)) for a in args]
                try:
                    r = f(*hs)
                    r = pm.incref(r.a)
                except PyRaise as e:
                    pm.set_err(e.name, msg=e.msg)
                    r = 0
                for h in hs:
                    self.drop(h)
                return r
            return g
        M = self.M
        n = M.next_id
        t = self.pm.make_subclass([c.a for c in cls] if isinstance(cls, (list, tuple)) else cls.a, name, dict((k, wrap(f)) for k, f in methods.items()))
        for i in range(n, M.next_id):
            if M.regions[i].kind == 'pyobj':
                M.regions[i].kind = 'global'
        return Obj(t)

    def throw(self, name='ValueError', msg='override'):
        raise PyRaise(name, msg)

    def reported(self):
        """number of exceptions printed since the last call"""
        n = len(self.pm.st.printed)
        self.pm.st.printed = []
        return n

    def indexer(self, f):
        """object whose __index__ runs f() -> handle of an int; f may call throw()"""
        def g(pm):
            try:
                h = f()
            except PyRaise as e:
                pm.set_err(e.name, msg=e.msg)
                return 0
            r = pm.incref(h.a)
            self.drop(h)
            return r
        return self.own(self.pm.mk('VhOther_Type', 'other', None, {'index': g}))

    def list_clear(self, l):
        self.pm.list_clear(l.a)

    def iter(self, o):
        return self._result(self.pm.get_iter(o.a), 'iter()')

    def next(self, o):
        """next item, or None with xname == 'StopIteration' at the end"""
        self.xname = None
        t = self.pm.type_of(o.a)
        f = self.pm.rd(t + T['iternext'])
        if not f:
            raise Violation('spec', 'an iterator of type %s cannot be iterated' % self.pm.tname(t))
        r = self.M.icall(f)(o.a)
        if r == 0 and self.pm.st.err is None:
            self.xname = 'StopIteration'
            return None
        return self._result(r, 'next()')

    def basecall(self, cls, name, o, *args):
        """cls.name(o, *args)"""
        f = self.pm.lookup_type(cls.a, name)
        m = self.own(self.pm.mkbound(f[1], o.a, name))
        r = self.call(m, args)
        self.drop(m)
        return r

    def binop(self, a, op, b):
        self.xname = None
        return self._result(self.pm.binop(a.a, b.a, op), 'operator ' + op)

    def neg(self, a):
        self.xname = None
        return self._result(self.pm.unop(a.a, 'negative'), 'operator -')

    def compare(self, a, op, b):
        self.xname = None
        return self._result(self.pm.richcompare(a.a, b.a, ('<', '<=', '==', '!=', '>', '>=').index(op)), 'comparison')

    def len(self, o):
        self.xname = None
        r = self.pm.length(o.a)
        if r is None:
            return self._exc()
        return self.own(self.pm.mkint(self.pm.sval(r, 64)))

    def getitem(self, o, k):
        self.xname = None
        return self._result(self.pm.getitem(o.a, k.a), 'subscript')

    def setitem(self, o, k, v):
        """True, or False with xname; v None: delete"""
        self.xname = None
        if self.pm.setitem(o.a, k.a, v.a if v is not None else 0) < 0:
            self._exc()
            return False
        return True

    def contains(self, o, v):
        """0, 1, or None with xname"""
        self.xname = None
        r = self.pm.contains(o.a, v.a)
        if r < 0:
            self._exc()
            return None
        return r

    def strof(self, o):
        self.xname = None
        return self._result(self.pm.str_of(o.a), 'str()')

    def collect(self):
        self.pm.collect()

    def exc_is(self, name):
        return self.xname is not None and self.pm.issub(self.xtype, self.pm.exc_types[name])

    def exc_type_is(self, t):
        return self.xname is not None and self.xtype == t.a

    def exc_message(self):
        return self.xmsg or ''

    def exc_reasons(self):
        """number of items of the list the exception carries"""
        p = self.pm.py(self.xval.a)
        p = self.pm.py(p.val) if type(p.val) is int and p.kind == 'exc' else p
        return len(p.val) if p.kind == 'list' else None

    def builtin(self, name):
        return Obj(self.pm.exc_types[name])

    def events(self, name=None):
        """[(name, gil, values)] of the wrapped library, and forget them"""
        l = self.pm.st.log
        self.pm.st.log = []
        return l

    def refs(self, o):
        return self.pm.refcnt(o.a)

    # end of the scenario --------------------------------------------------------
    def reset_lib(self):
        for n in ('vh_reset',):
            if 'F_' + n in self.M.ns and n in self.M.mod.source:
                self.M.call(n)

    def finish(self):
        pm, M = self.pm, self.M
        if pm.st.err is not None:
            raise Violation('exc', 'an exception is left pending')
        if not pm.st.gil or pm.st.depth:
            raise Violation('gil', 'the interpreter lock is not restored')
        for o in self.owned:
            self.drop(o)
        del self.owned[:]
        self.reset_lib()
        pm.st.log = []
        if pm.st.gcobjs:
            pm.collect()
        if pm.st.exc:
            raise Violation('free', 'a C++ exception is never released')
        first = M.snap[1]
        kept = self.tables()
        for i in range(first, M.next_id):
            r = M.regions.get(i)
            if r is None or not r.alive:
                continue
            if r.kind == 'pyobj' and r.lazy is None:
                raise Violation('ref', 'a reference to a Python object (%s) is never released' % r.name)
            if r.kind == 'heap' and i not in kept:
                raise Violation('free', 'C++ memory (%d bytes from %s) is never released' % (r.size, r.name))
            if r.kind == 'cxxexc':
                raise Violation('free', 'a C++ exception object is never released')
        base = M.snap[0]
        for i, r in M.regions.items():
            if i >= first:
                break
            if r.py is not None and r is not base.get(i):
                b = base[i]
                if not r.alive:
                    raise Violation('ref', 'a permanent Python object (%s) was released' % r.name)
                x, y = r.cells.get(0, (8, 0))[1], b.cells.get(0, (8, 0))[1]
                if x != y:
                    raise Violation('ref', '%s %d reference%s of a permanent object (%s)' % ('loses' if x < y else 'keeps', abs(x - y), '' if abs(x - y) == 1 else 's', self.pname(r)))

    def tables(self):
        """heap blocks of the tables of C++ type names, which grow by one entry per type that is looked up"""
        M = self.M
        todo = [i for i, r in M.regions.items() if r.kind == 'global' and '__typeid_map' in r.name]
        seen = set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            for n, v in M.regions[i].cells.values():
                if n == 8 and type(v) is int and v >> 32 and M.regions.get(v >> 32) is not None and M.regions[v >> 32].kind == 'heap':
                    todo.append(v >> 32)
        return seen

    def pname(self, r):
        if r.py.kind == 'type':
            return 'type ' + str(r.py.val)
        if r.py.kind == 'bool':
            return 'True' if r.py.val else 'False'
        return {'none': 'None', 'notimpl': 'NotImplemented'}.get(r.py.kind, r.name)


# ------------------------------------------------------------------ exploration

_W = {}


def load(corpus, work):
    """per process: module loaded and imported once"""
    key = (corpus, work)
    if key in _W:
        return _W[key]
    pm = PyModel([os.path.join(work, 'mod.ll'), os.path.join(work, 'lib.ll')])
    c = importlib.import_module(corpus)
    drv = SymDriver(pm, corpus[1:])
    pm.M.x.start([])
    pm.run_ctors()
    for n in [n for n, _ in getattr(c, 'EXTRA', [])] + [corpus[1:]]:
        r = pm.M.call('PyInit_' + n)
        if r == 0:
            raise EngineError('module initialisation fails: %r' % (pm.tname(pm.st.err[0]) if pm.st.err else '?'))
        if pm.st.err is not None:
            raise Violation('exc', 'module initialisation leaves an exception pending (%s)' % pm.tname(pm.st.err[0]))
    if hasattr(c, 'prepare'):
        c.prepare(drv)
    pm.st.log = []
    pm.M.x.finish()
    st = pm.st
    pm.M.snapshot()
    _W[key] = (pm, c, st)
    return _W[key]


def explore(task):
    corpus, work, i, limit_paths, limit_s = task
    t0 = time.time()
    res = dict(sc=i, corpus=corpus, paths=0, violations=[], samples=[], error=None, queries=0, solver_s=0.0, branches=0, asserts=0, done=True)
    try:
        pm, c, st0 = load(corpus, work)
    except Violation as v:
        res['violations'].append(dict(kind=v.kind, msg='importing the module: ' + v.msg, values={}, choices={}))
        return res
    except Exception:
        res['error'] = 'loading %s: %s' % (corpus, traceback.format_exc()[-1500:])
        return res
    sc = c.SCENARIOS[i]
    res['name'] = sc.name
    x = pm.M.x
    q0, s0, b0, a0 = x.queries, x.solver_s, x.branches, x.asserts
    stack = [[]]
    seen = set()
    while stack:
        if res['paths'] >= limit_paths or time.time() - t0 > limit_s:
            res['done'] = False
            break
        prefix = stack.pop()
        pm.M.restore()
        pm.st = st0.clone()
        pm.M.cur_exc = {}
        x.start(prefix)
        d = SymDriver(pm, corpus[1:])
        ok = True
        try:
            sc.run(d)
            d.finish()
        except PathEnd:
            ok = False
        except Violation as v:
            ok = False
            if (v.kind, v.msg) not in seen:
                seen.add((v.kind, v.msg))
                res['violations'].append(dict(kind=v.kind, msg=v.msg, values=x.values(), choices=dict(x.choices)))
        except CxxThrow as e:
            ok = False
            if 'escape' not in seen:
                seen.add('escape')
                res['violations'].append(dict(kind='cxx', msg='a C++ exception escapes into the interpreter', values=x.values(), choices=dict(x.choices)))
        except EngineError as e:
            res['error'] = '%s %s: %s' % (corpus, sc.name, traceback.format_exc()[-1800:])
            x.finish()
            break
        except Exception:
            res['error'] = '%s %s: %s' % (corpus, sc.name, traceback.format_exc()[-1800:])
            x.finish()
            break
        x.finish()
        if ok:
            res['paths'] += 1
            if len(res['samples']) < 3 or (zlib.crc32(repr(x.trace).encode()) % 17 == 0 and len(res['samples']) < 8):
                try:
                    res['samples'].append(dict(values=x.values(), choices=dict(x.choices), rec=conc(d.rec, x)))
                except EngineError:
                    pass
        stack.extend(x.frontier)
    res.update(queries=x.queries - q0, solver_s=x.solver_s - s0, branches=x.branches - b0, asserts=x.asserts - a0, wall=time.time() - t0,
               executed=sorted(pm.M.executed))
    return res


def conc(rec, x):
    m = x.model_ if x.model_ is not None else x.model()

    def c(v):
        if isinstance(v, (tuple, list)):
            return [c(y) for y in v]
        if z3.is_bool(v):
            return z3.is_true(m.eval(v, True))
        if z3.is_bv(v):
            return [y for y in [m.eval(v, True)]][0].as_long()
        return v
    return c(rec)
