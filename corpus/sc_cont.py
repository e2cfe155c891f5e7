"""oracle for wrapped containers: conversion of arguments and results, iteration"""
import gen
import sc_scalar
from gen import P
from gen_obj import C
from gen_cont import K, CP, CF, scalar
from sc_scalar import MUST, MAY, NEVER
from sc_obj import new, vof, idof, mod

ITEM = {'int': ['int', 'float', 'other'], 'bool': ['bool', 'int', 'badbool'], 'double': ['float', 'str1'], 'float': ['float', 'str1'],
        'str': ['str2', 'str0', 'int'], 'char': ['bytes1', 'int']}


# --- what the C++ side logged

def read(d, e, it):
    """next value of the log"""
    if isinstance(e, K):
        n = next(it)
        d.require(isinstance(n, int), 'the size is not definite', 'engine')
        out = []
        for i in range(n):
            out.append((read(d, e.key, it), read(d, e.val, it)) if e.key is not None else read(d, e.val, it))
        return out
    if isinstance(e, C):
        v = next(it)
        return (v, next(it))
    return next(it)


# --- values made from Python

class V(object):
    """python object together with status and expected value"""
    def __init__(self, o, st, val, kind=None):
        self.o, self.st, self.val, self.kind = o, st, val, kind


def elem(d, e, name, bad=True):
    if isinstance(e, K):
        return cont(d, e, name, bad, 1)
    if isinstance(e, C):
        k = d.choose(name + '.k', 3) if bad else 0
        if k == 0:
            o, v = new(d, e, name)
            return V(o, MUST, (v, idof(d, o)))
        return V(d.none() if k == 1 else d.make(name, 'int'), NEVER, None)
    ks = ITEM[e.sem[0]]
    o = d.arg(name, ks) if bad else d.make(name, ks[0])
    if not bad and e.sem[0] == 'int':
        v = d.ival(o)
        w, s = e.sem[1:]
        d.assume(d.inrange(v, -(1 << (w - 1)) if s else 0, (1 << (w - s)) - 1))
    return V(o, None, e)


def fits(d, e, x):
    """(status, value) of an element; decided after the call"""
    if isinstance(e, K):
        return judge(d, e, x)
    if isinstance(e, C):
        return x.st, x.val
    return sc_scalar.accepts(d, e, x.o)


def cont(d, k, name, bad=True, depth=0, most=9):
    """argument for a container parameter"""
    kinds = ['list', 'wrapper'] + (['none', 'int', 'tuple', 'liar', 'liar0'] if bad and not depth else ['int'] if bad else [])
    kind = kinds[d.choose(name + '.c', len(kinds))]
    if kind == 'none':
        return V(d.none(), NEVER, None, kind)
    if kind == 'int':
        return V(d.make(name, 'int'), NEVER, None, kind)
    if kind == 'liar':
        return V(d.liar(mod(d, k.name)), NEVER, None, kind)
    if kind == 'liar0':
        return V(d.liar(None), NEVER, None, kind)
    big = isinstance(k.val, P) and k.key is None and not depth and k.val.base != 'std::string'
    n = d.choose(name + '.n', min(most + 1, 4 if big and kind == 'list' else 3 if not depth else 2))
    items, hs = [], []
    for i in range(n):
        nm = '%s.%d' % (name, i)
        if k.key is None:
            x = elem(d, k.val, nm, bad and kind == 'list')
            items.append(x)
            hs.append(x.o)
            continue
        s = d.choose(nm + '.pair', 5 if i == 0 else 3) if bad and kind == 'list' else 0
        a, b = elem(d, k.key, nm + 'k', bad and kind == 'list'), elem(d, k.val, nm + 'v', bad and kind == 'list')
        l = [a.o, b.o] if s in (0, 4) else [a.o] if s == 1 else [a.o, b.o, d.int(1)]
        hs.append(d.make(nm, 'int') if s == 3 else d.list(l) if s == 4 else d.tuple(l))
        items.append((s == 0, a, b))
    if kind == 'tuple':
        return V(d.tuple(hs), NEVER, None, kind)
    o = d.list(hs)
    if kind == 'list':
        return V(o, None, items, kind)
    r = d.call(mod(d, k.name), [o])
    x = V(o, None, items, kind)
    st, val = judge(d, k, x)
    if r is None:
        d.require(st != MUST, 'making a container from acceptable items fails (%s)' % d.xname)
        return V(d.list([]), MUST, [], 'list')
    d.require(st != NEVER, 'a container is made from an unacceptable item')
    d.list_clear(o)
    x.o = r
    return x


def judge(d, k, x):
    """(status, list of values) of a container argument"""
    if x.val is None or x.st is not None:
        return x.st, x.val
    st, vals = MUST, []
    for it in x.val:
        if k.key is not None:
            if not it[0]:
                return NEVER, None
            s1, v1 = fits(d, k.key, it[1])
            if s1 == NEVER:
                return NEVER, None
            s2, v2 = fits(d, k.val, it[2])
            s, v = (MUST if s1 == s2 == MUST else s2 if s2 == NEVER else MAY), (v1, v2)
        else:
            s, v = fits(d, k.val, it)
        if s == NEVER:
            return NEVER, None
        if s == MAY:
            st = MAY
        vals.append(v)
    return st, vals


# --- comparing

def same(d, e, a, b):
    """condition: C++ value a (logged) is the converted value b"""
    if isinstance(e, K):
        return same_list(d, e, a, b)
    if isinstance(e, C):
        r = d.eq(a[0], b[0])
        if e.pol == 'shared' and b[1] is not None:
            return d.and_(r, d.eq(a[1], b[1]))
        return r
    return d.eq(a, b)


def same_item(d, k, a, b):
    if k.key is not None:
        return d.and_(same(d, k.key, a[0], b[0]), same(d, k.val, a[1], b[1]))
    return same(d, k.val, a, b)


def lt(d, e, a, b):
    if isinstance(a, tuple):
        if not b:
            return False
        if not a:
            return True
        return d.or_(d.ltu(a[0], b[0]), d.and_(d.eq(a[0], b[0]), lt(d, e, a[1:], b[1:])))
    return d.lts(a, b)


def same_list(d, k, logged, want):
    """condition; want in the order of conversion"""
    if k.kind == 'seq':
        if len(logged) != len(want):
            return False
        return d.and_(*[same_item(d, k, a, b) for a, b in zip(logged, want)])
    cs = []
    kf = (lambda x: x[0]) if k.key is not None else (lambda x: x)
    ke = k.key if k.key is not None else k.val
    for a in logged:
        cs.append(d.or_(*[same_item(d, k, a, b) for b in want]))
    for b in want:
        cs.append(d.or_(*[same(d, ke, kf(a), kf(b)) for a in logged]))
    if k.multi:
        cs.append(len(logged) == len(want))
    for a, b in zip(logged, logged[1:]):
        if k.multi:
            cs.append(d.not_(lt(d, ke, kf(b), kf(a))))
        elif k.ordered:
            cs.append(lt(d, ke, kf(a), kf(b)))
        else:
            cs.append(d.not_(same(d, ke, kf(a), kf(b))))
    return d.and_(*cs)


def check_py(d, e, o, v, what):
    """python object o read from a container is the C++ value v"""
    if isinstance(e, K):
        d.require(d.type_is(o, mod(d, e.name)), '%s is not a %s' % (what, e.name))
        check_iter(d, e, o, v, what)
    elif isinstance(e, C):
        d.require(d.type_is(o, mod(d, e.name)), '%s is not a %s' % (what, e.name))
        d.require(d.eq(vof(d, o), v[0]), '%s has another value' % what)
        if e.pol == 'shared':
            d.require(d.eq(idof(d, o), v[1]), '%s is another object' % what)
    else:
        sc_scalar.check_value(d, e, o, v, what)


def unread(d, e, v):
    """condition that the value cannot be shown in Python (text that is not UTF-8)"""
    if isinstance(e, P) and e.sem[0] == 'str':
        return d.not_(sc_scalar.valid_utf8(d, v))
    return False


def texts(k):
    return any(isinstance(e, P) and e.sem[0] == 'str' for e in (k.val, k.key) if e is not None)


def one(d, k, it, v, what):
    """next item of the iterator is v; False when it raises because v cannot be shown"""
    o = d.next(it)
    if o is None:
        d.require(d.xname != 'StopIteration', '%s: an element is left out' % what)
        bad = [unread(d, k.val, v[1]), unread(d, k.key, v[0])] if k.key is not None else [unread(d, k.val, v)]
        d.require(d.or_(*bad), '%s: reading an element fails (%s)' % (what, d.xname))
        return False
    if k.key is not None:
        d.require(d.kind(o) == 'tuple' and len(d.items(o)) == 2, '%s: an item of a mapping is not a pair' % what)
        a, b = d.items(o)
        check_py(d, k.key, a, v[0], what + ': a key')
        check_py(d, k.val, b, v[1], what + ': a value')
    else:
        check_py(d, k.val, o, v, what + ': an element')
    return True


def stop(d, it, what):
    o = d.next(it)
    d.require(o is None and d.xname == 'StopIteration', '%s: the iteration does not stop' % what)


def check_iter(d, k, o, vals, what):
    it = d.iter(o)
    d.require(it is not None, '%s: iter() fails' % what)
    for v in vals:
        if not one(d, k, it, v, what):
            return
    stop(d, it, what)


# --- scenarios

class Call(object):
    weight = 3

    def __init__(self, f, mode, tags=('P16',)):
        self.f, self.mode, self.tags = f, mode, tags
        self.name = '%s/%s' % (f.name, mode)

    def run(self, d):
        f = self.f
        ins = [p for p in f.params if p.is_in()]
        if self.mode == 'omit':
            ins = [p for p in ins if not p.default]
        args = []
        for i, p in enumerate(ins):
            if isinstance(p, CP):
                args.append(cont(d, p.k, p.name, most=1 if len(ins) > 1 else 9))
            else:
                args.append(V(d.arg(p.name, ['int', 'float']), None, None))
        d.events()
        r = d.call(mod(d, f.name), [a.o for a in args])
        evs = d.events()
        d.rec.append([d.xname if r is None else 'ok', len(evs)])
        status, want = MUST, []
        for p in f.params:
            if not p.is_in():
                continue
            if p not in ins:
                want.append((p, None))
                continue
            a = args[ins.index(p)]
            s, v = judge(d, p.k, a) if isinstance(p, CP) else sc_scalar.accepts(d, p, a.o)
            if s == NEVER:
                status = s
                break
            if s == MAY:
                status = s
            want.append((p, v))
        if status == NEVER:
            d.require(r is None, 'a call with an unacceptable item succeeds')
            d.require(not evs, 'the wrapped function runs although an item is unacceptable')
            return
        if status == MAY and r is None and not evs:
            return
        outs = [p for p in f.params if p.is_out()]
        no = len(outs) + (1 if isinstance(f.ret, tuple) else 0)
        d.require(len(evs) == 1 + no and evs[0][0] == f.name, 'the wrapped function does not run exactly once (%s)' % d.xname)
        it = iter(evs[0][2])
        for p, v in want:
            if not isinstance(p, CP):
                d.require(d.eq(next(it), v), 'argument %s differs' % p.name)
                continue
            got = read(d, p.k, it)
            if v is None and p not in ins:
                d.require(len(got) == (1 if isinstance(p.k.val, P) and p.k.key is None else 0), 'the default value is not used')
                continue
            d.require(same_list(d, p.k, got, v), 'the container %s does not hold exactly the converted items' % p.name)
        d.require(next(it, None) is None, 'more values logged', 'engine')
        for p, a in zip(ins, args):
            if isinstance(p, CP) and a.kind == 'wrapper':
                # the wrapper passed keeps its items
                st, v = judge(d, p.k, a)
                if p.k.kind == 'seq' and st == MUST:
                    check_iter(d, p.k, a.o, v, 'the container passed')
        res = [evs[1 + i] for i in range(no)]
        if r is None:
            d.require(not isinstance(f.ret, tuple) and f.ret == 'std::string', 'the call fails (%s)' % d.xname)
            d.require(d.not_(sc_scalar.valid_utf8(d, sc_scalar.libval(d, P(f.ret, 'r'), f.name + '.r'))), 'the call fails (%s)' % d.xname)
            return
        parts = []
        if isinstance(f.ret, tuple):
            # events of the parameters come first
            parts.append((f.ret[1], res[-1]))
            res = res[:-1]
        elif f.ret != 'void':
            parts.append((P(f.ret, 'r'), None))
        parts += [(p.k, e) for p, e in zip(outs, res)]
        if not parts:
            d.require(d.kind(r) == 'none', 'the result of a void function is not None')
            return
        its = [r]
        if len(parts) > 1:
            d.require(d.kind(r) == 'tuple' and len(d.items(r)) == len(parts), 'the result does not have %d parts' % len(parts))
            its = d.items(r)
        for (e, ev), o in zip(parts, its):
            if ev is None:
                sc_scalar.check_value(d, e, o, sc_scalar.libval(d, e, f.name + '.r'), 'the result')
                continue
            vals = read(d, e, iter(ev[2]))
            d.require(d.type_is(o, mod(d, e.name)), 'the result is not a %s' % e.name)
            check_iter(d, e, o, vals, 'the result')


class Make(object):
    """constructor of the container type"""
    weight = 3

    def __init__(self, k, tags=('P16',)):
        self.k, self.tags, self.name = k, tags, 'make/%s' % k.name

    def run(self, d):
        k = self.k
        t = mod(d, k.name)
        if d.choose('none', 2):
            r = d.call(t, [])
            d.require(r is not None, 'an empty container cannot be made (%s)' % d.xname)
            check_iter(d, k, r, [], 'the new container')
            d.rec.append('empty')
            return
        a = cont(d, k, 'a')
        r = d.call(t, [a.o])
        d.rec.append([d.xname if r is None else 'ok'])
        st, v = judge(d, k, a)
        if st == NEVER:
            d.require(r is None, 'a container is made from an unacceptable item')
            return
        if r is None:
            d.require(st == MAY, 'a container cannot be made from acceptable items (%s)' % d.xname)
            return
        d.events()
        # an independent container
        if a.kind == 'list':
            d.list_clear(a.o)
        d.drop(a.o)
        x = d.call(mod(d, k.name + '_cref'), [r])
        d.require(x is not None, 'passing the container fails (%s)' % d.xname)
        got = read(d, k, iter(d.events()[0][2]))
        d.require(same_list(d, k, got, v), 'the new container does not hold exactly the converted items')


class Iter(object):
    """iteration of a container made by the library; several iterators, dropped container"""
    weight = 3

    def __init__(self, k, how, kc=None, tags=('P16',)):
        self.k, self.how, self.kc, self.tags = k, how, kc, tags
        self.name = 'iter/%s/%s' % ((kc or k).name, how)

    def run(self, d):
        k = self.k
        d.events()
        c = d.callm(d.module(), (self.kc or k).name + '_make')
        d.require(c is not None, 'making a container fails (%s)' % d.xname)
        vals = read(d, k, iter(d.events()[-1][2]))
        d.rec.append(len(vals))
        it = d.iter(c)
        d.require(it is not None, 'iter() fails (%s)' % d.xname)
        if self.how == 'self':
            j = d.iter(it)
            d.require(j is not None and d.is_(j, it), 'iter() of an iterator is another object')
            d.drop(j)
        if self.how == 'drop':
            d.drop(c)
        if self.how == 'abandon':
            if vals:
                one(d, k, it, vals[0], 'the iteration')
            d.drop(it if d.choose('first', 2) else c)
            return
        for i, v in enumerate(vals):
            if self.how == 'two' and i == 0:
                j = d.iter(c)
                for w in vals:
                    if not one(d, k, j, w, 'the second iteration'):
                        break
                else:
                    stop(d, j, 'the second iteration')
                if not texts(k) and d.choose('dropc%d' % i, 2):
                    d.drop(c)
                    d.drop(j)
                    c = d.callm(d.module(), (self.kc or k).name + '_make')
                    vals2 = read(d, k, iter(d.events()[-1][2]))
                    it2 = d.iter(c)
                    d.drop(it)
                    it, vals, c0 = it2, vals2, c
                    for w in vals:
                        if not one(d, k, it, w, 'the iteration'):
                            break
                    return
                d.drop(j)
            if not one(d, k, it, v, 'the iteration'):
                # the element cannot be shown; the others can
                return
            if self.how == 'drop' and i == 0 and not texts(k):
                d.callm(d.module(), (self.kc or k).name + '_make')
        stop(d, it, 'the iteration')
        stop(d, it, 'the iteration')
        if self.how == 'self' and self.kc is not None and self.kc.sub:
            d.require(d.setattr(c, 'it', it), 'setting an instance attribute fails')


class Mutate(object):
    """the list changes while it is converted"""
    tags = ('P16',)

    def __init__(self, k, kk=False):
        self.k, self.kk = k, kk
        self.name = 'mutate/%s' % k.name + ('/key' if kk else '')

    def run(self, d):
        k = self.k
        box = []
        v = d.ivar('v')
        d.assume(d.inrange(v, 0, 100))
        fail = d.choose('fail', 2)

        def index():
            d.list_clear(box[0])
            if fail:
                d.throw()
            return d.int(v)
        n = 1 + d.choose('n', 2)
        at = d.choose('at', n)
        hs = []
        for i in range(n):
            x = d.indexer(index) if i == at else d.int(5)
            if k.key is not None:
                y = d.str('ab') if k.val.sem[0] == 'str' else d.int(6)
                t = d.tuple([x, y])
                d.drop(x)
                d.drop(y)
                x = t
            hs.append(x)
        l = d.list(hs)
        for h in hs:
            d.drop(h)
        box.append(l)
        d.events()
        r = d.call(mod(d, k.name + '_cref'), [l])
        evs = d.events()
        if fail:
            d.require(r is None and not evs, 'the call succeeds although an item raises')
            return
        if r is None:
            d.require(not evs, 'the function runs and the call fails')
            return
        d.require(len(evs) == 1, 'the wrapped function does not run exactly once')
        got = read(d, k, iter(evs[0][2]))
        d.rec.append(len(got))
        d.require(len(got) >= 1, 'the item that was converted is missing')
        x = got[0] if at == 0 or k.kind == 'seq' else None
        if x is not None:
            x = x[0] if k.key is not None else x
            d.require(d.eq(x, v if at == 0 else 5), 'the container does not hold the item')


def scenarios(ks, funcs, kcs):
    out = []
    for f in funcs:
        out.append(Call(f, 'pos'))
        if any(isinstance(p, CP) and p.default for p in f.params):
            out.append(Call(f, 'omit'))
    for k in ks:
        out.append(Make(k))
        out += [Iter(k, h) for h in ('self', 'drop', 'two', 'abandon')]
        e = k.key if k.key is not None else k.val
        if isinstance(e, P) and e.sem[0] == 'int' and (k.key is None or isinstance(k.val, P)):
            out.append(Mutate(k))
    for kc in kcs:
        out += [Iter(kc.k, h, kc) for h in ('self', 'drop', 'two', 'abandon')]
    return out
