"""replays scenario paths in the really compiled extension module (run by the repository's python):
realdrive.py <corpus> <dir of the .so>; one json job per input line, one json result per output line"""
import ctypes
import gc
import importlib
import json
import operator
import os
import struct
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True


class Fail(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind, self.msg = kind, msg


class Skip(Exception):
    pass


class BadBool(object):
    def __bool__(self):
        raise ValueError('truth value is ambiguous')


class Other(object):
    pass


class H(object):
    __slots__ = ('o', 'live')

    def __init__(self, o):
        self.o, self.live = o, True


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def d2b(d):
    return struct.unpack('<Q', struct.pack('<d', d))[0]


def b2d(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


class RealDriver(object):
    real = True

    def __init__(self, rt, mod, values, choices):
        self.rt, self.mod, self.values, self.choices = rt, mod, values, choices
        self.hs = []
        self.failed = []
        self.rec = []
        self.xname = None
        self.warn_mode = None
        self.reuse_addr = []
        rt.rt_reset()
        for k, v in values.items():
            if '#' in k:
                rt.rt_set(k.encode(), ctypes.c_ulonglong(v & (1 << 64) - 1))
        for k, v in choices.items():
            rt.rt_set(('?' + k).encode(), ctypes.c_ulonglong(v))

    # values
    def ivar(self, name, bits=80):
        v = self.values.get(name, 0)
        return signed(v, bits) if bits == 80 else v

    def decide(self, c):
        return bool(c)

    def choose(self, name, n):
        return self.choices.get(name, 0)

    def assume(self, c):
        if not c:
            raise Skip()

    def inrange(self, v, lo, hi):
        return lo <= v <= hi

    def wrap(self, v, w, sg):
        return signed(v, w) if sg else v & ((1 << w) - 1)

    def eq(self, a, b):
        return a == b

    def ltu(self, b, k):
        return b < k

    def lts(self, a, b):
        return a < b

    def cint(self, name, bits, sg):
        v = self.values.get(name, 0)
        return signed(v, bits) if sg else v & ((1 << bits) - 1)

    def made(self, name):
        return self.choices.get(name, 0)

    def objid(self, o):
        return ('obj', id(o.o))

    def ne0(self, v):
        return v != 0

    def f32(self, d):
        if d == 'nan64':
            return 'nan32'
        f = ctypes.c_float(b2d(d)).value
        return struct.unpack('<I', struct.pack('<f', f))[0] if f == f else 'nan32'

    def f64(self, f):
        d = struct.unpack('<f', struct.pack('<I', f))[0]
        return self.nn(d2b(d))

    @staticmethod
    def nn(b):
        d = b2d(b)
        return b if d == d else 'nan64'

    def xor(self, v, n):
        return v ^ n

    def widen(self, b):
        return b

    def const_f64(self, d):
        return d2b(d)

    def int_as_f64(self, v):
        return d2b(float(v))

    def and_(self, *c):
        return all(c)

    def or_(self, *c):
        return any(c)

    def not_(self, c):
        return not c

    def require(self, c, msg, kind='spec'):
        if not c:
            raise Fail(kind, msg)

    def fail(self, msg, kind='spec'):
        raise Fail(kind, msg)

    # objects
    def own(self, o):
        h = H(o)
        self.hs.append(h)
        return h

    def drop(self, h):
        if h.live:
            h.live = False
            h.o = None

    def keep(self, h):
        return self.own(h.o)

    def none(self):
        return self.own(None)

    def int(self, v):
        return self.own(v)

    def float(self, b):
        return self.own(b2d(b))

    def str(self, s):
        return self.own(s if isinstance(s, str) else bytes(s).decode())

    def list(self, items):
        return self.own([i.o for i in items])

    def tuple(self, items):
        return self.own(tuple(i.o for i in items))

    def make(self, name, kind):
        v = self.values
        if kind == 'int':
            return self.own(signed(v.get(name, 0), 80))
        if kind == 'bool':
            return self.own(bool(v.get(name + '.b', 0)))
        if kind == 'float':
            return self.own(b2d(v.get(name + '.d', 0)))
        if kind.startswith('str'):
            return self.own(bytes(v.get('%s.s%d' % (name, i), 65) & 127 for i in range(int(kind[3:]))).decode())
        if kind.startswith('bytes'):
            return self.own(bytes(v.get('%s.s%d' % (name, i), 65) for i in range(int(kind[5:]))))
        return self.own(BadBool() if kind == 'badbool' else Other())

    def liar(self, cls):
        def get(me):
            if cls is None:
                raise ValueError('class')
            return cls.o
        return self.own(type('Liar', (object,), {'__class__': property(get)})())

    def indexer(self, f):
        def g(me):
            h = f()
            r = h.o
            self.drop(h)
            return r
        return self.own(type('Indexer', (object,), {'__index__': g})())

    def list_clear(self, l):
        l.o.clear()

    def iter(self, o):
        return self._do(lambda: iter(o.o))

    def next(self, o):
        return self._do(lambda: next(o.o))

    def arg(self, name, kinds):
        kinds = list(kinds)
        if 'none' in kinds:
            if self.choices.get(name + '.none', 0):
                return self.none()
            kinds.remove('none')
        if len(kinds) == 1:
            return self.make(name, kinds[0])
        return self.make(name, kinds[self.choices.get(name + '.kind', 0)])

    def kind(self, h):
        o = h.o
        for t, n in ((bool, 'bool'), (int, 'int'), (float, 'float'), (str, 'str'), (bytes, 'bytes'), (tuple, 'tuple'), (list, 'list'), (dict, 'dict'),
                     (type, 'type'), ((Other, BadBool), 'other')):
            if isinstance(o, t):
                return n
        if o is None:
            return 'none'
        if o is NotImplemented:
            return 'notimpl'
        if isinstance(o, BaseException):
            return 'exc'
        return 'wrapper'

    def is_(self, a, b):
        return a.o is b.o

    def type_is(self, o, t):
        return type(o.o) is t.o

    def ival(self, h):
        return int(h.o)

    def dval(self, h):
        return self.nn(d2b(h.o))

    def sval(self, h):
        return tuple(h.o.encode('utf-8') if isinstance(h.o, str) else h.o)

    def items(self, h):
        return [self.own(x) for x in h.o]

    def truth_fails(self, h):
        return isinstance(h.o, BadBool)

    def truth(self, h):
        return bool(h.o)

    # operations
    def module(self, name=None):
        return H(sys.modules[name or self.mod])

    def _do(self, f, reset=True):
        if reset:
            self.xname = None
        try:
            return self.own(f())
        except SystemError as e:
            raise Fail('exc', 'SystemError: %s' % e)
        except (Fail, Skip):
            raise
        except BaseException as e:
            self.xname = type(e).__name__
            self.xmsg = str(e)
            self.xtype = type(e)
            self.xval = self.own(e.with_traceback(None))
            return None

    def subclass(self, cls, name, methods):
        d = self

        def wrap(f):
            def g(*args):
                hs = [d.own(a) for a in args]
                try:
                    r = f(*hs).o
                except Fail as e:
                    d.failed.append(e)
                    raise ValueError('failed')
                finally:
                    for h in hs:
                        d.drop(h)
                return r
            return g
        return H(type(name, tuple(c.o for c in cls) if isinstance(cls, (list, tuple)) else (cls.o,), dict((k, wrap(f)) for k, f in methods.items())))

    def throw(self, name='ValueError', msg='override'):
        import builtins
        raise getattr(builtins, name)(msg)

    def reported(self):
        n = self.printed[0]
        self.printed[0] = 0
        return n

    printed = [0]

    def basecall(self, cls, name, o, *args):
        return self._do(lambda: getattr(cls.o, name)(o.o, *[a.o for a in args]))

    def binop(self, a, op, b):
        f = getattr(operator, {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '+=': 'iadd', '-=': 'isub', '*=': 'imul', '/=': 'itruediv'}[op])
        return self._do(lambda: f(a.o, b.o))

    def neg(self, a):
        return self._do(lambda: -a.o)

    def compare(self, a, op, b):
        f = getattr(operator, {'<': 'lt', '<=': 'le', '==': 'eq', '!=': 'ne', '>': 'gt', '>=': 'ge'}[op])
        return self._do(lambda: f(a.o, b.o))

    def len(self, o):
        return self._do(lambda: len(o.o))

    def getitem(self, o, k):
        return self._do(lambda: o.o[k.o])

    def setitem(self, o, k, v):
        def f():
            if v is None:
                del o.o[k.o]
            else:
                o.o[k.o] = v.o
        return self._do(f) is not None

    def contains(self, o, v):
        r = self._do(lambda: v.o in o.o)
        return None if r is None else int(r.o)

    def strof(self, o):
        return self._do(lambda: str(o.o))

    def collect(self):
        gc.collect()

    def call(self, f, args=(), kw=None):
        return self._do(lambda: f.o(*[a.o for a in args], **dict((n, a.o) for n, a in (kw or {}).items())))

    def getattr(self, o, name):
        return self._do(lambda: getattr(o.o, name), False)

    def setattr(self, o, name, v):
        r = self._do((lambda: setattr(o.o, name, v.o)) if v is not None else (lambda: delattr(o.o, name)))
        return r is not None

    def callm(self, o, name, *args):
        return self._do(lambda: getattr(o.o, name)(*[a.o for a in args]))

    def exc_is(self, name):
        import builtins
        return self.xname is not None and issubclass(self.xtype, getattr(builtins, name))

    def exc_type_is(self, t):
        return self.xname is not None and self.xtype is t.o

    def exc_message(self):
        return self.xmsg

    def exc_reasons(self):
        a = self.xval.o.args
        return len(a[0]) if len(a) == 1 and isinstance(a[0], list) else None

    def builtin(self, name):
        import builtins
        return H(getattr(builtins, name))

    def events(self, name=None):
        out = []
        for i in range(self.rt.rt_nlog()):
            f = self.rt.rt_log(i).decode('latin1').split('\x1f')
            vals = []
            for v in f[2:]:
                k, v = v[0], v[1:]
                if k in 'i':
                    vals.append(int(v))
                elif k == 'd':
                    vals.append(self.nn(int(v)))
                elif k == 'f':
                    b = int(v)
                    d = struct.unpack('<f', struct.pack('<I', b))[0]
                    vals.append(b if d == d else 'nan32')
                elif k == 's':
                    vals.append(tuple(bytes.fromhex(v)))
                elif k == 'n':
                    vals.append(None)
                elif k == 'o':
                    vals.append(('obj', int(v)))
            out.append((f[0], f[1] == '1', vals))
        self.rt.rt_clear_log()
        return out

    def refs(self, o):
        return sys.getrefcount(o.o)

    def finish(self):
        if self.failed:
            raise self.failed[0]
        for h in self.hs:
            h.live, h.o = False, None
        del self.hs[:]
        try:
            self.rt.vh_reset()
        except AttributeError:
            pass
        # PyErr_Print keeps the printed exception, and with it the frames of the override
        for k in ('last_exc', 'last_value', 'last_traceback', 'last_type'):
            sys.__dict__.pop(k, None)
        for i in range(3):
            gc.collect()
        try:
            n = self.rt.vh_live()
        except AttributeError:
            n = 0
        if n:
            raise Fail('free', '%d C++ objects are never released' % n)


def canon(rec):
    if isinstance(rec, (list, tuple)):
        return [canon(x) for x in rec]
    if isinstance(rec, bool):
        return rec
    return rec


def main():
    corpus, d = sys.argv[1:3]
    sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'corpus'))
    c = importlib.import_module(corpus)
    corpus = corpus[1:]
    extra = [n for n, _ in getattr(c, 'EXTRA', [])]
    lib = os.path.join(d, ('lib' if extra else corpus) + '.so')
    if extra:
        ctypes.PyDLL(lib, ctypes.RTLD_GLOBAL)
    for n in extra + [corpus]:
        spec = importlib.util.spec_from_file_location(n, os.path.join(d, n + '.so'))
        m = importlib.util.module_from_spec(spec)
        sys.modules[n] = m
        spec.loader.exec_module(m)
    rt = ctypes.PyDLL(lib)
    rt.rt_log.restype = ctypes.c_char_p
    rt.rt_set.argtypes = [ctypes.c_char_p, ctypes.c_ulonglong]
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    gc.disable()

    def hook(t, v, tb):
        RealDriver.printed[0] += 1
    sys.excepthook = hook
    sys.unraisablehook = lambda u: hook(0, 0, 0)
    for line in sys.stdin:
        job = json.loads(line)
        sc = c.SCENARIOS[job['sc']]
        res = dict(id=job['id'])
        out.write(json.dumps(dict(start=job['id'])) + '\n')
        out.flush()
        drv = RealDriver(rt, corpus, job['values'], job['choices'])
        try:
            sc.run(drv)
            drv.finish()
            res['ok'] = True
        except Fail as f:
            res['fail'] = [f.kind, f.msg]
        except Skip:
            res['skip'] = True
        except Exception:
            import traceback
            res['error'] = traceback.format_exc()[-800:]
        res['rec'] = canon(drv.rec)
        for h in drv.hs:
            h.o = None
        out.write(json.dumps(res, default=str) + '\n')
        out.flush()
    out.close()
    os._exit(0)


if __name__ == '__main__':
    import importlib.util
    main()
