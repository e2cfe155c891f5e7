"""oracle for calls that pass class instances: acceptance, identity, values, copies, ownership"""
import gen
import sc_scalar
from gen_obj import O, R, C

FRESH = ('fresh',)


def mod(d, n):
    return d.getattr(d.module(), n)


def i32(d, name):
    v = d.ivar(name)
    d.assume(d.inrange(v, -(1 << 31), (1 << 31) - 1))
    return v


def new(d, c, name):
    """instance made from Python and its value"""
    v = i32(d, name)
    o = d.call(mod(d, c.name), [d.int(v)])
    d.require(o is not None, 'the constructor fails (%s)' % d.xname)
    d.events()
    return o, v


def vof(d, o):
    h = d.getattr(o, 'v')
    d.require(h is not None and d.kind(h) == 'int', 'the value attribute cannot be read')
    return d.ival(h)


def idof(d, o):
    h = d.callm(o, 'ident')
    d.require(h is not None and d.kind(h) == 'int', 'the method cannot be called')
    return d.ival(h)


def taken(d, c):
    """[(v, id)] of the objects the library was given"""
    d.events()
    h = d.callm(d.module(), '%s_taken' % c.name)
    d.require(h is not None, 'the library function fails')
    e = d.events()[0][2]
    return [(e[i], e[i + 1]) for i in range(1, len(e), 2)]


def poke(d, c, name='poke'):
    x = i32(d, name)
    r = d.callm(d.module(), '%s_poke' % c.name, d.int(x))
    d.require(r is not None, 'the library function fails')
    d.events()
    return x


def is_instance(d, o, c):
    return d.type_is(o, mod(d, c.name))


class Arg(object):
    def __init__(self, p, kind, o, c=None, v=None, id=None):
        self.p, self.kind, self.o, self.c, self.v, self.id = p, kind, o, c, v, id


def make(d, p, kinds, classes, prev):
    n = p.name
    if not isinstance(p, O):
        o = sc_scalar.make_arg(d, p, n, False)
        return Arg(p, 'scalar', o)
    k = kinds[d.choose(n + '.k', len(kinds))] if len(kinds) > 1 else kinds[0]
    if k == 'none':
        return Arg(p, k, d.none())
    if k == 'int':
        return Arg(p, k, d.make(n, 'int'))
    if k == 'liar':
        return Arg(p, k, d.liar(mod(d, p.c.name)))
    if k == 'liar0':
        return Arg(p, k, d.liar(None))
    if k == 'same':
        prev = [a for a in prev if a.c is not None and a.c.is_sub(p.c)]
        if not prev:
            return Arg(p, 'none', d.none())
        a = prev[0]
        return Arg(p, k, a.o, a.c, a.v, a.id)
    c = p.c if k == 'inst' else classes[k.replace('py:', '')]
    if k.startswith('py:'):
        t = d.subclass(mod(d, c.name), 'Py' + c.name, {})
        v = i32(d, n)
        o = d.call(t, [d.int(v)])
        d.require(o is not None, 'an instance of the Python subclass cannot be made (%s)' % d.xname)
        d.events()
        return Arg(p, k, o, c, v, idof(d, o))
    o, v = new(d, c, n)
    return Arg(p, k, o, c, v, idof(d, o))


def fits(d, a):
    """(status, values the C++ side logs)"""
    p = a.p
    if not isinstance(p, O):
        return sc_scalar.accepts_param(d, p, a.o)
    if a.kind == 'none':
        return (sc_scalar.MUST, [None]) if p.is_ptr() and p.null else (sc_scalar.NEVER, None)
    if a.c is None:
        return sc_scalar.NEVER, None
    if not a.c.is_sub(p.c):
        conv = [x for x in getattr(p.c, 'implicit', ()) if a.c.is_sub(x)]
        if p.mode in ('val', 'cref') and conv:
            return sc_scalar.MUST, [a.v, FRESH]
        return sc_scalar.NEVER, None
    copied = p.mode == 'val' or p.mode == 'cref' and getattr(p.c, 'implicit', ())
    return sc_scalar.MUST, [a.v, FRESH if copied else a.id]


class OCall(object):
    def __init__(self, f, mode, kinds, classes, tags=('P10',), registry=False):
        self.f, self.mode, self.kinds, self.classes, self.registry = f, mode, kinds, classes, registry
        self.name = '%s/%s' % (f.name, mode)
        self.tags = f.tags or tags

    def run(self, d):
        f = self.f
        me = None
        if f.cls:
            me, mv = new(d, f.cls, 'self')
            mid = idof(d, me)
            fn = d.getattr(me, f.pyname)
        else:
            fn = mod(d, f.pyname)
        ins = [p for p in f.params if p.is_in()]
        take = [p for p in ins if not (isinstance(p, O) and p.default)] if self.mode == 'omit' else ins
        args = []
        for i, p in enumerate(take):
            args.append(make(d, p, self.kinds(p, i) if isinstance(p, O) else None, self.classes, args))
        d.events()
        r = d.call(fn, [a.o for a in args])
        evs = d.events()
        d.rec.append([d.xname if r is None else 'ok', len(evs)])
        status, vals = sc_scalar.MUST, [mv, mid] if me else []
        for p in ins:
            a = [a for a in args if a.p is p]
            if not a:
                vals.append(None if p.is_ptr() else i32)
                if not p.is_ptr():
                    vals.append(FRESH)
                continue
            s, v = fits(d, a[0])
            if s == sc_scalar.NEVER:
                status = s
                break
            if s == sc_scalar.MAY:
                status = s
            vals += v
        if status == sc_scalar.NEVER:
            d.require(r is not None or not evs, 'the wrapped function runs although the conversion of an argument failed', 'call')
            d.require(r is None, 'a call with unacceptable arguments succeeds')
            d.require(not evs, 'the wrapped function runs although an argument is unacceptable')
            self.after(d, args, False, me and (me, mv, mid))
            return
        if status == sc_scalar.MAY and r is None and not evs:
            return self.after(d, args, False, me and (me, mv, mid))
        d.require(len(evs) == 1, 'the wrapped function runs %d times for one call with acceptable arguments (%s)' % (len(evs), d.xname))
        name, gil, logged = evs[0]
        d.require(name == f.name, 'the wrong function runs: %s' % name)
        sc_scalar.check_gil(d, f, gil)
        thrown = f.throw and d.made(f.name + '.throw#0')
        rl = []
        if isinstance(f.ret, R) and not thrown and f.ret.how not in ('val', 'pass') and not (f.ret.null and d.made(f.name + '.null#0')):
            n = 1 if f.ret.how in ('new', 'freecopy') else 2
            rl, logged = logged[-n:], logged[:-n]
        d.require(len(logged) == len(vals), 'wrong number of values')
        ids = [a.id for a in args if a.id is not None]
        for x, y in zip(logged, vals):
            if y is i32:
                continue
            if y is FRESH:
                d.require(not any(d.decide(d.eq(x, i)) for i in ids), 'an object passed by value is not a copy')
                continue
            if y is None and status == sc_scalar.MAY:
                continue
            d.require(d.eq(x, y), 'the wrapped function sees another object or value than the one passed')
            d.rec.append(None if isinstance(x, tuple) else x)
        if thrown:
            sc_scalar.check_exc(d, f, r, thrown)
            self.after(d, args, True, me and (me, mv, mid), wrote=False)
            return
        if r is None:
            ps = [(f_rets(f), f.name + '.r')] if f.ret == 'std::string' else []
            ps += [(p, '%s.%s' % (f.name, p.name)) for p in f.params if not isinstance(p, O) and p.is_out() and p.base == 'std::string']
            bad = [d.not_(sc_scalar.valid_utf8(d, sc_scalar.libval(d, p, t))) for p, t in ps]
            d.require(d.or_(*bad), 'a call with acceptable arguments fails (%s)' % d.xname)
            return self.after(d, args, True, me and (me, mv, mid))
        self.result(d, r, rl, args)
        self.after(d, args, True, me and (me, mv, mid))

    def result(self, d, r, rl, args):
        f = self.f
        outs = []
        if f.ret != 'void':
            outs.append(('ret', f.ret))
        for p in f.params:
            if isinstance(p, O) and p.dir == 'out':
                outs.append(('oout', p))
            elif not isinstance(p, O) and p.is_out():
                outs.append(('out', p))
        if not outs:
            d.require(d.kind(r) == 'none', 'the result of a void function is not None')
            return
        its = [r]
        if len(outs) > 1:
            d.require(d.kind(r) == 'tuple' and len(d.items(r)) == len(outs), 'the result does not have %d parts' % len(outs))
            its = d.items(r)
        for (k, p), o in zip(outs, its):
            if k == 'out':
                sc_scalar.check_value(d, p, o, sc_scalar.libval(d, p, '%s.%s' % (f.name, p.name)), 'the output')
            elif k == 'oout':
                d.require(d.kind(o) == 'wrapper' and is_instance(d, o, p.c), 'the output is not an instance of %s' % p.c.name)
                d.require(d.eq(vof(d, o), d.cint('%s.%s#0' % (f.name, p.name), 32, 1)), 'the output object has the wrong value')
            elif not isinstance(p, R):
                sc_scalar.check_value(d, f_rets(f), o, sc_scalar.libval(d, f_rets(f), f.name + '.r'), 'the result')
            else:
                self.robj(d, o, p, rl, args)

    def robj(self, d, o, R_, rl, args):
        f, c, how = self.f, R_.c, R_.how
        if R_.null and d.made(f.name + '.null#0'):
            d.require(d.kind(o) == 'none', 'a null pointer does not become None')
            return
        if how == 'pass' and args[0].kind == 'none':
            d.require(d.kind(o) == 'none', 'a null pointer does not become None')
            return
        want = c
        dyn = f.kw.get('dyn')
        if dyn:
            want = self.classes['dyn'](dyn[d.made(f.name + '.dyn#0')])
        elif c.dyn and rl and how not in ('new', 'freecopy'):
            want = self.classes['dyn'](c.dyn[d.made(c.name + '.dyn#0')])
        elif how == 'pass':
            want = args[0].c
        dynamic = want
        if want is not c:
            copied = c.pol not in ('refm', 'reff', 'shared') and how in ('copy', 'cptr', 'ref', 'cref')
            want, dynamic = (c, c) if copied else (want.shown_as(c), want)
        d.require(d.kind(o) == 'wrapper', 'the result is not an instance of %s' % want.name)
        if how == 'pass' and d.is_(o, args[0].o):
            return
        d.require(how != 'pass' or not self.registry, 'the C++ object gets another wrapper although one is alive')
        d.require(is_instance(d, o, want), 'the result is not an instance of %s' % want.name)
        v, i = vof(d, o), idof(d, o)
        if want.has_kind():
            h = d.callm(o, 'kind')
            d.require(h is not None and d.eq(d.ival(h), dynamic.kindval()), 'a virtual method does not run on the returned object')
        counted = c.pol in ('refm', 'reff')
        if how == 'val':
            d.require(d.eq(v, d.cint(f.name + '.r#0', 32, 1)), 'the returned object has the wrong value')
        elif how == 'new':
            d.require(d.eq(v, d.cint(f.name + '.r#0', 32, 1)), 'the returned object has the wrong value')
            d.require(d.eq(i, rl[0]), 'the wrapper does not hold the object that was returned')
        elif how == 'freecopy':
            d.require(d.eq(v, d.cint(f.name + '.r#0', 32, 1)), 'the returned object has the wrong value')
            d.require(not d.decide(d.eq(i, rl[0])), 'the wrapper holds the object that is freed')
        elif how == 'pass':
            a = args[0]
            w = d.cint('%s.%s#0' % (f.name, a.p.name), 32, 1) if a.p.mode == 'ptr' else a.v
            d.require(d.eq(v, w), 'the returned object has the wrong value')
            same = counted or c.pol == 'shared' or 'exist' in str(f.ret.opts())
            d.require(d.decide(d.eq(i, a.id)) == same, 'the wrapper %s the object that was returned' % ('does not hold' if same else 'holds'))
        else:
            d.require(d.eq(v, rl[0]), 'the returned object has the wrong value')
            same = how in ('exist', 'refexist') or counted and how in ('copy', 'cptr') or c.pol == 'shared' and how == 'exist'
            d.require(d.decide(d.eq(i, rl[1])) == same, 'the wrapper %s the object that was returned' % ('does not hold' if same else 'holds'))
            x = poke(d, c)
            d.require(d.eq(vof(d, o), x if same else rl[0]), 'a change of the C++ object is %svisible' % ('not ' if same else ''))

    def after(self, d, args, ran, me, wrote=True):
        f = self.f
        seen = []
        for a in args:
            if a.c is None or any(a.o is s for s in seen):
                continue
            mine = [b for b in args if b.o is a.o and isinstance(b.p, O)]
            if ran and any(b.p.takes for b in mine) and a.c.pol not in ('refm', 'reff', 'shared'):
                continue
            seen.append(a.o)
            v = a.v
            for b in mine:
                if ran and wrote and b.p.mode in ('ref', 'ptr') and not (b.p.mode == 'ref' and b.p.dir == 'out') and not (b.p.mode == 'cref'):
                    v = d.cint('%s.%s#0' % (f.name, b.p.name), 32, 1)
            d.require(d.eq(vof(d, a.o), v), 'an argument object has the wrong value after the call')
            d.require(d.eq(idof(d, a.o), a.id), 'an argument wrapper holds another object after the call')
        if me:
            d.require(d.eq(vof(d, me[0]), me[1]), 'the object whose method was called changes')
        for a in args:
            if isinstance(a.p, O):
                d.drop(a.o)
        for c in set(a.p.c for a in args if isinstance(a.p, O) and a.p.takes):
            t = taken(d, c)
            exp = [a for a in args if isinstance(a.p, O) and a.p.takes and a.p.c is c and a.kind != 'none'] if ran and wrote else []
            d.require(len(t) == len(exp), 'the library has %d objects instead of %d' % (len(t), len(exp)))
            for (v, i), a in zip(t, exp):
                last = [b for b in args if b.o is a.o and isinstance(b.p, O) and b.p.mode in ('ref', 'ptr')][-1]
                d.require(d.eq(v, d.cint('%s.%s#0' % (f.name, last.p.name), 32, 1)), 'an object given to the library has the wrong value afterwards')
                d.require(d.eq(i, a.id), 'the library was given another object')


def f_rets(f):
    return gen.P(f.ret, 'r')


class Life(object):
    """sequences of operations on the objects of one class"""
    tags = ('P10',)
    weight = 20

    def __init__(self, c, ops, steps, tags=('P10',), registry=False, family=None, first=None):
        self.first = first          # the first operation
        self.c, self.ops, self.steps, self.tags, self.registry = c, ops, steps, tags, registry
        self.family = family or [c]
        self.name = 'life/%s%s' % (c.name, '/' + first if first else '')

    def run(self, d):
        c = self.c
        n = c.name
        hs = []          # [handle, object key]
        objs = {}        # key -> value; key: number
        lib = None       # key of the library's own object
        nk = nlib = 0
        for step in range(self.steps):
            live = [h for h in hs if h[0] is not None]
            ops = self.makers() if step or not self.first else [self.first]
            if live:
                ops += [o for o in self.ops if o not in ops]
            op = ops[d.choose('op%d' % step, len(ops))]
            h = None
            if op not in ('make', 'new', 'copy', 'exist', 'val', 'gift', 'poke'):
                h = live[d.choose('h%d' % step, len(live))] if len(live) > 1 else live[0]
            d.events()
            if op == 'make':
                o, v = new(d, self.family[d.choose('c%d' % step, len(self.family))] if len(self.family) > 1 else c, 'v%d' % step)
                nk += 1
                objs[nk] = v
                hs.append([o, nk])
            elif op == 'new':
                r = self.get(d, '%s_new' % n, step)
                nk += 1
                objs[nk] = vof(d, r)
                hs.append([r, nk])
            elif op == 'val':
                r = self.get(d, '%s_rval' % n, step)
                nk += 1
                objs[nk] = vof(d, r)
                hs.append([r, nk])
            elif op in ('copy', 'exist'):
                r = self.get(d, '%s_%s' % (n, op), step)
                if lib is None:
                    nk += 1
                    lib = nk
                    objs[lib] = d.cint('%s.lib#%d' % (n, nlib), 32, 1)
                k = lib
                known = self.registry and any(x[1] == lib for x in live)
                if op == 'copy' and c.pol not in ('refm', 'reff') and not known:
                    nk += 1
                    k = nk
                    objs[k] = objs[lib]
                if self.registry and k == lib:
                    for x in live:
                        if x[1] == k:
                            d.require(d.is_(x[0], r), 'the same C++ object is returned with another wrapper although one is alive')
                    for x in live:
                        if x[1] != k:
                            d.require(not d.is_(x[0], r), 'the wrapper of another object is returned')
                hs.append([r, k])
            elif op == 'gift':
                old = [x for x in live if lib is not None and x[1] == lib]
                if c.pol not in ('refm', 'reff') and not self.registry and old:
                    continue            # two wrappers, one of them the owner
                r = self.get(d, '%s_gift' % n, step)
                if lib is None:
                    nk += 1
                    lib = nk
                    objs[lib] = d.cint('%s.lib#%d' % (n, nlib), 32, 1)
                if self.registry:
                    for x in old:
                        d.require(d.is_(x[0], r), 'the same C++ object is returned with another wrapper although one is alive')
                hs.append([r, lib])
                lib = None
                nlib += 1
            elif op == 'poke':
                x = poke(d, c, 'p%d' % step)
                if lib is None:
                    nk += 1
                    lib = nk
                objs[lib] = x
            elif op == 'drop':
                d.drop(h[0])
                h[0] = None
            elif op == 'write':
                x = i32(d, 'w%d' % step)
                d.require(d.setattr(h[0], 'v', d.int(x)), 'writing the attribute fails')
                objs[h[1]] = x
            elif op == 'lend':
                r = d.call(mod(d, '%s_ptr' % n), [h[0]])
                e = d.events()
                d.require(r is not None and len(e) == 1, 'passing an object fails (%s)' % d.xname)
                d.require(d.eq(e[0][2][0], objs[h[1]]), 'the wrapped function sees another value')
                objs[h[1]] = vof(d, h[0])
            elif op == 'again':
                # the same C++ object comes back from a function
                r = d.call(mod(d, '%s_pass' % n), [h[0]])
                d.require(r is not None and d.kind(r) == 'wrapper', 'returning an object fails (%s)' % d.xname)
                d.events()
                d.require(d.is_(r, h[0]), 'the same C++ object is returned with another wrapper although one is alive')
                objs[h[1]] = vof(d, h[0])
                hs.append([r, h[1]])
            elif op == 'give':
                # only objects that the wrapper owns may be given away
                if c.pol not in ('refm', 'reff') and h[1] == lib:
                    continue
                if len(taken(d, c)) > 2:
                    continue
                r = d.call(mod(d, '%s_take' % n), [h[0]])
                d.require(r is not None, 'giving an object away fails (%s)' % d.xname)
                e = d.events()
                d.require(len(e) == 1 and d.eq(e[0][2][0], objs[h[1]]), 'the wrapped function sees another value')
                t = taken(d, c)
                objs[h[1]] = t[-1][0]
                if c.pol not in ('refm', 'reff'):
                    for x in hs:
                        if x[1] == h[1] and x[0] is not None:
                            d.drop(x[0])
                            x[0] = None
            elif op == 'dup':
                m = d.getattr(h[0], '__copy__')
                d.require(m is not None, 'the class has no __copy__')
                r = d.call(m, [])
                d.require(r is not None, 'copying fails (%s)' % d.xname)
                d.require(not d.is_(r, h[0]), 'the copy is the same Python object')
                d.require(not d.decide(d.eq(idof(d, r), idof(d, h[0]))), 'the copy shares the C++ object')
                nk += 1
                objs[nk] = objs[h[1]]
                hs.append([r, nk])
            elif op == 'copyctor':
                r = d.call(mod(d, n), [h[0]])
                d.require(r is not None, 'the copy constructor fails (%s)' % d.xname)
                d.require(not d.decide(d.eq(idof(d, r), idof(d, h[0]))), 'the copy shares the C++ object')
                nk += 1
                objs[nk] = objs[h[1]]
                hs.append([r, nk])
            elif op == 'attr':
                # instance dictionary
                other = d.int(i32(d, 'a%d' % step))
                d.require(d.setattr(h[0], 'extra', other), 'setting an instance attribute fails (%s)' % d.xname)
                d.drop(other)
            elif op == 'cycle':
                d.require(d.setattr(h[0], 'me', h[0]), 'setting an instance attribute fails (%s)' % d.xname)
            for h in hs:
                if h[0] is not None:
                    d.require(d.eq(vof(d, h[0]), objs[h[1]]), 'after %s a wrapper shows the wrong value' % op)
        d.rec.append(len(objs))

    def makers(self):
        return ['make'] + [o for o in self.ops if o in ('new', 'copy', 'exist', 'val', 'gift')]

    def split(self):
        """scenarios that together are this one"""
        return [Life(self.c, self.ops, self.steps, self.tags, self.registry, self.family, o) for o in self.makers()]

    def get(self, d, f, step):
        r = d.callm(d.module(), f)
        d.require(r is not None and d.kind(r) == 'wrapper', '%s fails (%s)' % (f, d.xname))
        d.events()
        return r
