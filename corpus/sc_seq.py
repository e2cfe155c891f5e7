"""scenarios for the sequence, call and text protocols: the special method of the class or of its nearest base runs, once,
on the converted arguments, and its result or exception is that of the operation"""
import sc_scalar
from sc_scalar import MUST, MAY, NEVER
from sc_obj import i32

SS = 1 << 63


class Arg(object):
    """argument: scalar of a chosen kind or instance of a class"""
    def __init__(self, d, by, name, kinds):
        self.cls = self.val = None
        k = kinds[d.choose(name + '.k', len(kinds))] if len(kinds) > 1 else kinds[0]
        self.kind = k
        if k in by:
            self.cls = by[k]
            self.o, self.val = inst(d, self.cls, name)
        elif k == 'none':
            self.o = d.none()
        else:
            self.o = d.make(name, k)


class Given(object):
    cls = None

    def __init__(self, o):
        self.o = o


def inst(d, c, name, py=False):
    m = d.module()
    t = d.getattr(d.getattr(m, c.ns) if c.ns else m, c.name)
    if py:
        t = d.subclass(t, 'Py' + c.name, {})
    v = i32(d, name)
    o = d.call(t, [d.int(v)])
    d.require(o is not None, 'an instance cannot be made (%s)' % d.xname)
    return o, v


def fits(d, by, f, args, kw):
    ins = f.params
    if len(args) > len(ins):
        return NEVER, None
    got = dict(zip([p.name for p in ins], args))
    for k, a in kw.items():
        if k in got or k not in [p.name for p in ins]:
            return NEVER, None
        got[k] = a
    st, vals = MUST, []
    for p in ins:
        if p.name not in got:
            return NEVER, None
        a = got[p.name]
        if p.base in by:
            if a.cls is None or not a.cls.issub(by[p.base]):
                return NEVER, None
            vals.append(a.val)
            continue
        if a.cls is not None:
            if p.sem[0] != 'bool':
                return NEVER, None
            # truth of an instance with a length is its length: left to the caller
            raise AssertionError('instances as bool')
        s, v = sc_scalar.accepts_param(d, p, a.o)
        if s == NEVER:
            return NEVER, None
        if s == MAY:
            st = MAY
        vals.extend(v)
    return st, vals


def ran(d, by, fs, me, args, kw, evs, r):
    """the overload that ran, None after a refused call"""
    d.require(len(evs) < 2, 'more than one special method runs')
    for f in fs:
        st, vals = fits(d, by, f, args, kw)
        if st == NEVER or (st == MAY and (not evs or evs[0][0] != f.name)):
            continue
        d.require(bool(evs), 'the special method does not run on acceptable operands (%s)' % d.xname)
        d.require(evs[0][0] == f.name, '%s runs instead of %s' % (evs[0][0], f.name))
        sc_scalar.check_gil(d, f, evs[0][1])
        vals = [me] + vals
        d.require(len(vals) == len(evs[0][2]), 'wrong number of values')
        for i, (x, y) in enumerate(zip(evs[0][2], vals)):
            d.require(d.eq(x, y), 'the special method sees another %s' % ('operand %d' % i if i else 'object'))
        n = count(d, f)
        k = d.made(f.name + '.throw#%d' % n) if f.throw else 0
        if k:
            sc_scalar.check_exc(d, f, r, k)
            return None
        k = d.made(f.name + '.pe#%d' % n) if f.kw.get('pyerr') else 0
        if k:
            d.require(r is None, 'the operation succeeds although the C++ code set an exception')
            d.require(d.exc_is(('IndexError', 'ValueError')[k - 1]), 'the exception set by the C++ code becomes %s' % d.xname)
            return None
        return f
    d.require(not evs, '%s runs on operands it does not accept' % (evs and evs[0][0]))
    d.require(r is None, 'operands that are not acceptable are accepted')
    return None


def count(d, f):
    n = d.nrun.get(f.name, 0)
    d.nrun[f.name] = n + 1
    return n


def value(d, by, f, k=0):
    """value returned by the k-th run of the method"""
    if f.ret in by:
        return d.cint('%s.r#%d' % (f.name, k), 32, 1)
    return sc_scalar.libval(d, f.rets, f.name + '.r', k)


def checked(d, by, f, r, what='the result'):
    """r is the converted result of f"""
    if f.ret == 'void':
        d.require(r is not None and d.kind(r) == 'none', '%s of a void method is not None' % what)
        return
    v = value(d, by, f)
    if f.ret in by:
        m = d.module()
        c = by[f.ret]
        d.require(r is not None, 'the operation fails (%s)' % d.xname)
        d.require(d.type_is(r, d.getattr(d.getattr(m, c.ns) if c.ns else m, c.name)), '%s has the wrong type' % what)
        h = d.getattr(r, 'v')
        d.require(d.eq(d.ival(h), v), '%s is not the C++ value' % what)
        return
    if r is None:
        d.require(f.rets.sem[0] == 'str', 'the operation fails (%s)' % d.xname)
        d.require(d.not_(sc_scalar.valid_utf8(d, v)), 'the operation fails (%s)' % d.xname)
        return
    sc_scalar.check_value(d, f.rets, r, v, what)


class Base(object):
    def __init__(self, classes, c, py, tags=('P17',)):
        self.classes, self.c, self.py, self.tags = classes, c, py, tags
        self.name = '%s/%s%s%s' % (self.op, 'py:' if py else '', c.name, self.more())

    def more(self):
        return ''

    def run(self, d):
        d.nrun = {}
        self.by = dict((c.name, c) for c in self.classes)
        self.me, self.mv = inst(d, self.c, 'self', self.py)
        d.events()
        self.go(d)
        h = d.getattr(self.me, 'v')
        d.require(h is not None and d.eq(d.ival(h), self.mv), 'the object is changed by the operation')

    def done(self, d, r):
        evs = d.events()
        d.rec.append([d.xname if r is None else 'ok', [e[0] for e in evs]])
        return evs

    def lenof(self, d, evs, r):
        """consumes the event of __len__; its value or None if it fails"""
        fs = self.c.find('__len__')
        f = ran(d, self.by, fs, self.mv, [], {}, evs, r)
        if f is None:
            d.require(r is None, 'the operation goes on after a failure of __len__')
            return None
        n = value(d, self.by, f)
        if f.ret == 'double':
            d.require(r is None and d.exc_is('TypeError'), 'a length that is no integer is accepted')
            return None
        if not d.decide(d.inrange(n, 0, SS - 1)):
            d.require(r is None, 'a length below zero or too large is accepted')
            d.require(d.exc_is('ValueError') or d.exc_is('OverflowError'), 'an impossible length raises %s' % d.xname)
            return None
        return n

    def index(self, d, k, evs, r):
        """the index the method gets, None if the operation must have failed before; consumes events of __len__"""
        kind = d.kind(k)
        if kind not in ('int', 'bool'):
            d.require(r is None and d.exc_is('TypeError'), 'an index that is no integer is accepted')
            d.require(not evs, 'a special method runs although the index is no integer')
            return None
        v = d.ival(k)
        if not d.decide(d.inrange(v, -SS, SS - 1)):
            d.require(r is None and d.exc_is('IndexError'), 'an index out of the range of indices is accepted')
            d.require(not evs, 'a special method runs although the index is out of range')
            return None
        if self.c.find('__len__') and not d.decide(d.inrange(v, 0, SS - 1)):
            d.require(bool(evs), 'the length is not asked for a negative index')
            n = self.lenof(d, evs[:1], r if len(evs) == 1 else True)
            del evs[0]
            if n is None:
                d.require(not evs, 'a special method runs after __len__ failed')
                d.require(r is None, 'the operation goes on after a failure of __len__')
                return None
            v = v + n
        return Given(d.int(v))


class Len(Base):
    op = 'len'

    def go(self, d):
        r = d.len(self.me)
        evs = self.done(d, r)
        if self.c.find('__len__') is None:
            d.require(r is None and d.exc_is('TypeError') and not evs, 'an object without __len__ has a length')
            return
        n = self.lenof(d, evs, r)
        if n is not None:
            d.require(r is not None, 'len() fails (%s)' % d.xname)
            d.require(d.eq(d.ival(r), n), 'len() is not the C++ value')


KINDS = ['int', 'bool', 'float', 'str1', 'none']


class Get(Base):
    op = 'get'

    def go(self, d):
        k = Arg(d, self.by, 'k', KINDS)
        r = d.getitem(self.me, k.o)
        evs = self.done(d, r)
        fs = self.c.find('__getitem__')
        if fs is None:
            d.require(r is None and d.exc_is('TypeError') and not evs, 'an object without __getitem__ has items')
            return
        i = self.index(d, k.o, evs, r)
        if i is None:
            return
        f = ran(d, self.by, fs, self.mv, [i], {}, evs, r)
        if f:
            checked(d, self.by, f, r, 'the item')


class Set(Base):
    op = 'set'

    def go(self, d):
        k = Arg(d, self.by, 'k', KINDS)
        delete = d.choose('del', 2)
        insts = ['S1'] if self.c.name in ('S4', 'S5') else []
        if any(p.base == 'bool' for f in self.c.find('__setitem__') or () for p in f.params):
            insts = []
        v = None if delete else Arg(d, self.by, 'v', KINDS + insts)
        d.events()
        ok = d.setitem(self.me, k.o, None if delete else v.o)
        r = self.me if ok else None
        evs = self.done(d, r)
        fs = self.c.find('__setitem__')
        if fs is None:
            d.require(r is None and d.exc_is('TypeError') and not evs, 'an object without __setitem__ can be changed')
            return
        i = self.index(d, k.o, evs, r)
        if i is None:
            return
        if delete:
            d.require(r is None and d.exc_is('TypeError'), 'an item can be deleted')
            d.require(not evs, '__setitem__ runs for a deletion')
            return
        f = ran(d, self.by, fs, self.mv, [i, v], {}, evs, r)
        if f is None:
            return
        if f.ret == 'void':
            d.require(r is None and d.exc_is('IndexError'), 'a __setitem__ without a status succeeds')
            return
        zero = d.decide(d.eq(value(d, self.by, f), 0))
        if zero:
            d.require(r is not None, 'the assignment fails although the status is zero (%s)' % d.xname)
        else:
            d.require(r is None, 'the assignment succeeds although the status is not zero')
            d.require(d.exc_is('IndexError') or d.exc_is('OverflowError'), 'a nonzero status becomes %s' % d.xname)


class In(Base):
    op = 'in'

    def go(self, d):
        fs = self.c.find('__contains__')
        v = Arg(d, self.by, 'v', KINDS + (['S1', 'S2'] if self.c.name == 'S4' else []))
        d.events()
        n = d.contains(self.me, v.o)
        r = self.me if n is not None else None
        evs = self.done(d, r)
        f = ran(d, self.by, fs, self.mv, [v], {}, evs, r)
        if f is None:
            return
        if f.ret not in ('int', 'bool'):
            d.require(r is None, 'a membership test without an integer result succeeds')
            return
        d.require(r is not None, 'the membership test fails (%s)' % d.xname)
        d.require(d.eq(n, int(d.decide(d.ne0(value(d, self.by, f))))), 'the membership test gives the wrong answer')


class Call(Base):
    op = 'call'

    def __init__(self, classes, c, py, mode, tags=('P17',)):
        self.mode = mode
        Base.__init__(self, classes, c, py, tags)

    def more(self):
        return '/' + self.mode

    def go(self, d):
        fs = self.c.find('__call__')
        if fs is None:
            r = d.call(self.me, [])
            evs = self.done(d, r)
            d.require(r is None and d.exc_is('TypeError') and not evs, 'an object without __call__ can be called')
            return
        insts = sorted(set(p.base for f in fs for p in f.params if p.base in self.by))
        few = ['int', 'str1']
        pos, kw = [], {}
        if self.mode.isdigit():
            pos = [Arg(d, self.by, 'a%d' % i, KINDS + insts if i == 0 else few) for i in range(int(self.mode))]
        elif self.mode == 'kw':
            kw = {'p0': Arg(d, self.by, 'a', KINDS + insts)}
        elif self.mode == 'mixed':
            pos, kw = [Arg(d, self.by, 'a', few)], {'p1': Arg(d, self.by, 'b', few)}
        else:
            kw = {'nosuch': Arg(d, self.by, 'a', few)}
        d.events()
        r = d.call(self.me, [a.o for a in pos], dict((k, a.o) for k, a in kw.items()))
        evs = self.done(d, r)
        f = ran(d, self.by, fs, self.mv, pos, kw, evs, r)
        if f:
            checked(d, self.by, f, r)


class Str(Base):
    op = 'str'

    def go(self, d):
        r = d.strof(self.me)
        evs = self.done(d, r)
        c = self.c
        while not c.text:
            c = c.parent
        d.require(len(evs) == 1 and evs[0][0] == c.name + '.text', 'not the output operator of the class runs')
        d.require(d.eq(evs[0][2][0], self.mv), 'the output operator sees another object')
        p = sc_scalar.gen.P('std::string', 'r')
        v = sc_scalar.libval(d, p, c.name + '.t')
        if r is None:
            d.require(d.not_(sc_scalar.valid_utf8(d, v)), 'str() fails (%s)' % d.xname)
        else:
            sc_scalar.check_value(d, p, r, v, 'the text')


class Arith(Base):
    """+ * += *= of sequences"""
    def __init__(self, classes, c, py, op, kind, left=True, tags=('P17',)):
        self.op, self.kind, self.left = op, kind, left
        Base.__init__(self, classes, c, py, tags)

    def more(self):
        return '%s%s' % (self.op if self.left else '-', self.kind)

    def go(self, d):
        b = Arg(d, self.by, 'b', [self.kind])
        d.events()
        r = d.binop(self.me, self.op, b.o) if self.left else d.binop(b.o, self.op, self.me)
        evs = self.done(d, r)
        plus = self.op[0] == '+'
        fs = None
        if self.left:
            if len(self.op) == 2:
                fs = self.c.find('__iadd__' if plus else '__imul__')
            if fs is None:
                fs = self.c.find('__add__' if plus else '__mul__')
        elif not plus and (b.cls is None or b.cls.find('__mul__') is None):
            fs = self.c.find('__mul__')
        if not plus and not self.left and b.cls is not None and b.cls.find('__mul__') is not None:
            d.require(r is None and not evs, 'a sequence times a sequence')
            return
        if fs is None:
            d.require(r is None and d.exc_is('TypeError') and not evs, 'an operation that is not registered succeeds')
            return
        a = b
        if not plus:
            if b.cls is not None or d.kind(b.o) not in ('int', 'bool'):
                d.require(r is None and d.exc_is('TypeError') and not evs, 'a sequence times something that is no integer')
                return
            v = d.ival(b.o)
            if not d.decide(d.inrange(v, -SS, SS - 1)):
                d.require(r is None and d.exc_is('OverflowError') and not evs, 'an overlarge factor is accepted')
                return
            a = Given(d.int(v))
        f = ran(d, self.by, fs, self.mv, [a], {}, evs, r)
        if f:
            checked(d, self.by, f, r)
            d.require(not d.is_(r, self.me), 'the result is the left operand')


def scenarios(classes, tags=('P17',)):
    out = []
    for c in classes:
        for py in (False, True):
            if py and not c.sub:
                continue
            out += [Len(classes, c, py, tags), Get(classes, c, py, tags), Set(classes, c, py, tags)]
            if c.find('__contains__'):
                out.append(In(classes, c, py, tags))
            for m in ('0', '1', '2', '3', 'kw', 'mixed', 'badkw'):
                out.append(Call(classes, c, py, m, tags))
            if c.has_text():
                out.append(Str(classes, c, py, tags))
            for op in ('+', '*', '+=', '*='):
                for k in ['int', 'bool', 'float', 'str1', 'none', c.name, 'S1']:
                    if k == c.name == 'S1':
                        continue
                    for left in (True, False) if len(op) == 1 and k != c.name else (True,):
                        out.append(Arith(classes, c, py, op, k, left, tags))
    return out
