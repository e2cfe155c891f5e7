"""oracle for virtual methods that take and return class instances, and for the life of instances of Python subclasses"""
import sc_scalar
import sc_obj
from gen_obj import O, R
from sc_obj import mod, i32, vof, idof, new, is_instance
from sc_scalar import KINDS


class VObj(object):
    """one virtual call of one method; how: ok, raise, none (no override), parent (the override calls the parent), bad (unusable result)"""
    tags = ('P15', 'P10')
    weight = 6

    def __init__(self, c, m, how, src='fresh', tags=('P15', 'P10'), registry=False):
        self.c, self.m, self.how, self.src, self.registry = c, m, how, src, registry
        self.tags = tuple(tags) + (('P12',) if m.call != 'plain' else ())
        self.name = '%s.%s/%s%s' % (c.name, m.name, how, '' if src == 'fresh' else '-' + src)

    def run(self, d):
        c, m, how = self.c, self.m, self.how
        t = 'drv_%s_%s' % (c.name, m.name)
        pt = '%s::%s' % (c.name, m.name)
        ins = [p for p in m.params if p.is_in()]
        robj = getattr(m, 'robj', None)
        calls = []
        st = {'shown': None, 'kept': [], 'wrote': {}, 'inner': []}
        known = {}            # parameter -> (value, id) of the object the driver made, None: null

        def look():
            """reads what the driver logged before the call"""
            evs = d.events()
            st['inner'] += [e for e in evs if e[0] != t + '.in']
            for e in evs:
                if e[0] == t + '.in':
                    l = list(e[2])
                    for p in m.params:
                        if isinstance(p, O) and p.c.name != c.name:
                            known[p.name] = (l[0], l[1])
                            if p.null and d.made('%s.%s.null#0' % (t, p.name)):
                                known[p.name] = None
                            del l[:2]

        def override(me, *args):
            calls.append(1)
            look()
            d.require(d.is_(me, st['o']), 'the override runs with another object')
            d.require(d.eq(idof(d, me), st['id']), 'inside the override the wrapper refers to another C++ object')
            d.require(len(args) == len(ins), 'the override gets %d arguments instead of %d' % (len(args), len(ins)))
            objs = []
            for p, a in zip(ins, args):
                if not isinstance(p, O):
                    sc_scalar.check_value(d, p, a, sc_scalar.libval(d, p, '%s.%s' % (t, p.name)), 'the argument %s of the override' % p.name)
                    continue
                if p.c.name == c.name:
                    d.require(d.eq(idof(d, a), st['id']) and d.eq(vof(d, a), st['v']), 'the wrapped object itself is not passed')
                    d.require(p.mode == 'ref' or d.is_(a, me), 'the wrapped object itself is passed with another wrapper')
                    continue
                k = known[p.name]
                if k is None:
                    d.require(d.kind(a) == 'none', 'a null pointer does not become None')
                    continue
                d.require(d.kind(a) == 'wrapper' and is_instance(d, a, p.c), 'the argument %s is not an instance of %s' % (p.name, p.c.name))
                d.require(d.eq(vof(d, a), k[0]), 'the argument %s has the wrong value' % p.name)
                i = idof(d, a)
                shared = p.c.pol in ('refm', 'reff', 'shared') or p.takes or p.dir == 'inout'
                if shared and p.mode != 'val':
                    d.require(d.eq(i, k[1]), 'the argument %s refers to another C++ object' % p.name)
                if p.mode == 'val':
                    d.require(not d.decide(d.eq(i, k[1])), 'an object passed by value is not a copy')
                objs.append((p, a))
                if st['shown'] is not None and self.registry:
                    d.require(d.is_(a, st['shown']), 'the C++ object is passed with another wrapper although one is alive')
            if how != 'parent':
                for p, a in objs:
                    if p.dir == 'inout' or p.mode == 'val':
                        x = i32(d, 'w.' + p.name)
                        d.require(d.setattr(a, 'v', d.int(x)), 'writing the attribute fails')
                        st['wrote'][p.name] = x
                    if d.choose('keep.' + p.name, 2):
                        st['kept'].append((p, d.keep(a), st['wrote'].get(p.name, known[p.name][0])))
            if how == 'raise':
                d.throw()
            if how == 'parent':
                r = d.basecall(mod(d, c.name), m.name, me, *args)
                look()
                if r is None:
                    st['parent_x'] = d.xname
                    d.throw()
                return r
            return result(me, objs)
        outs = ([m.rets] if m.ret != 'void' else []) + [p for p in m.params if not isinstance(p, O) and p.is_out()]

        def result(me, objs):
            if how == 'bad':
                k = d.choose('bad', 4)
                if k == 0 and not (m.ret == 'void' and not outs):
                    return d.none()
                if k == 1:
                    return new(d, bad_class(d, c, robj), 'other')[0]
                if k == 2:
                    return d.tuple([])
                return d.make('r', 'str1') if robj or not outs else d.tuple([d.none()])
            rs = []
            for p in outs:
                if p is not robj:
                    st.setdefault('scal', []).append(d.arg('x%d' % len(rs), KINDS[p.sem[0]][:1]))
                    rs.append(st['scal'][-1])
                    continue
                if self.src == 'arg':
                    a = [a for q, a in objs if q.c is robj.c]
                    h = a[0] if a else d.none()
                    st['rv'] = known[[q for q, b in objs][0].name] if a else None
                elif self.src == 'kept':
                    h, st['rv'] = st['own'][0], (st['own'][1], idof(d, st['own'][0]))
                else:
                    h, v = new(d, robj.c, 'rv')
                    st['rv'] = (v, idof(d, h))
                    if d.choose('keep.r', 2):
                        st['kept'].append((None, d.keep(h), v))
                rs.append(h)
            if not rs:
                return d.none()
            return rs[0] if len(rs) == 1 else d.tuple(rs)
        if self.src == 'kept':
            st['own'] = new(d, robj.c, 'rv')
        sub = d.subclass(mod(d, c.name), 'Sub', {} if how == 'none' else {m.name: override})
        v = i32(d, 'v')
        o = d.call(sub, [d.int(v)])
        d.require(o is not None, 'an object of the Python class cannot be made (%s)' % d.xname)
        st['o'] = o
        st['v'] = v
        st['id'] = idof(d, o)
        if m.shown:
            x = d.callm(d.module(), 'show_%s_%s' % (c.name, m.name))
            d.require(x is not None and d.kind(x) == 'wrapper', 'the object cannot be made (%s)' % d.xname)
            if d.choose('shown', 2):
                st['shown'] = x
            else:
                d.drop(x)
        d.events()
        d.reported()
        r = d.call(mod(d, t), [o])
        look()
        evs = st['inner']
        d.require(r is not None, 'the exception of the override escapes from the C++ function (%s)' % d.xname)
        rep = d.reported()
        d.rec.append([len(calls), rep, [e[0] for e in evs]])
        d.require(len(calls) == (0 if how == 'none' else 1), 'the override runs %d times' % len(calls))
        d.require(evs and evs[-1][0] == t, 'the C++ function does not end')
        logged = list(evs[-1][2])
        pe = evs[:-1]

        def parent_ran():
            d.require(len(pe) == 1 and pe[0][0] == pt, 'the parent implementation runs %d times' % len(pe))
            x = list(pe[0][2])
            d.require(d.eq(x[0], st['id']), 'the parent implementation runs on another object')
            x = x[1:]
            for p in m.params:
                if isinstance(p, O):
                    if p.c.name == c.name:
                        continue
                    k = known[p.name]
                    if k is not None:
                        d.require(d.eq(x[0], st['wrote'].get(p.name, k[0]) if p.dir == 'inout' else k[0]), 'the parent implementation gets another value of %s' % p.name)
                        if p.mode == 'val' or how == 'parent' and not p.takes and p.c.pol not in ('refm', 'reff', 'shared'):
                            pass
                        else:
                            d.require(d.eq(x[1], k[1]), 'the parent implementation gets another object %s' % p.name)
                    del x[:2]
                elif p.is_in():
                    d.require(d.eq(x[0], sc_scalar.libval(d, p, '%s.%s' % (t, p.name))), 'the parent implementation gets another argument value')
                    del x[:1]

        def parent_values():
            if m.ret == 'void':
                return
            if robj:
                want = d.cint(pt + '.r#0', 32, 1)
                d.require(d.eq(logged[0], want), 'the C++ caller does not get the value of the parent implementation')
            else:
                d.require(d.eq(logged[0], sc_scalar.libval(d, m.rets, pt + '.r')), 'the C++ caller does not get the value of the parent implementation')
        usable = how == 'ok' or how == 'parent' and not st.get('parent_x')
        if how == 'ok' and self.src == 'arg' and st['rv'] is None:
            usable = False
        if how == 'bad' and (m.ret == 'bool' or not outs and d.made('bad') == 0):
            return           # any object has a truth value
        for x in st.get('scal', ()):
            a = sc_scalar.accepts(d, [p for p in outs if p is not robj][0], x)[0] if usable else 0
            if usable and (a == sc_scalar.NEVER or a == sc_scalar.MAY and rep):
                usable = False
        if how == 'none':
            d.require(rep == 0, 'an error is reported although nothing failed')
            if m.pure:
                d.require(not pe, 'C++ code runs for a pure virtual method')
            else:
                parent_ran()
                parent_values()
        elif how == 'parent' and usable:
            d.require(rep == 0, 'an error is reported although nothing failed')
            parent_ran()
            parent_values()
        elif usable:
            d.require(rep == 0, 'an error is reported although the override returns usable values')
            d.require(not pe, 'the parent implementation runs although the override returns usable values')
            if robj:
                d.require(d.eq(logged[0], st['rv'][0] if self.src != 'arg' else st['wrote'].get('x', st['rv'][0])), 'the C++ caller does not get the object of the override')
                same = d.decide(d.eq(logged[1], st['rv'][1]))
                if robj.c.pol in ('refm', 'reff', 'shared'):
                    d.require(same, 'the C++ caller does not get the object of the override')
                else:
                    d.require(not same, 'the C++ caller gets an object that Python still owns')
            elif m.ret != 'void':
                s, y = sc_scalar.accepts(d, m.rets, st['scal'][0])
                d.require(d.eq(logged[0], y), 'the C++ caller does not get the value of the override')
        else:
            d.require(rep >= 1, 'the error of the override is not reported')
            if m.ret != 'void' and not m.pure and how != 'parent':
                parent_ran()
                parent_values()
        # the objects of the driver after the call
        n = (2 if robj else 0 if m.ret == 'void' else 1)
        rest = logged[n:]
        for p in m.params:
            if not isinstance(p, O) or p.c.name == c.name:
                if not isinstance(p, O) and p.is_out():
                    del rest[:1]
                continue
            if p.takes and p.c.pol != 'shared':
                continue
            if known[p.name] is not None:
                want = known[p.name][0]
                if p.dir == 'inout':
                    want = st['wrote'].get(p.name, want)
                    if pe and how != 'parent' or pe and how == 'parent':
                        want = d.cint('%s.%s#0' % (pt, p.name), 32, 1)
                d.require(d.eq(rest[0], want), 'after the call the C++ object %s has the wrong value' % p.name)
            del rest[:2]
        # what the override kept
        for p, h, w in st['kept']:
            if p is not None and pe and (p.takes or p.dir == 'inout' and p.mode in ('ref', 'ptr')):
                continue            # the parent implementation changed or took it
            if st['shown'] is not None and self.registry and not p.takes and not p.c.pol:
                continue            # the wrapper of an object that the library has released
            d.require(d.eq(vof(d, h), w), 'an object kept by the override has another value after the call')
        p = m.params[0] if m.shown else None
        if st['shown'] is not None and not pe and (p.c.pol or self.registry and p.takes):
            d.require(d.eq(vof(d, st['shown']), st['wrote'].get('x', known['x'][0])), 'the wrapper of the object shows another value')
            d.require(d.eq(idof(d, st['shown']), known['x'][1]), 'the wrapper of the object shows another object')
        if self.src == 'kept':
            d.require(d.eq(vof(d, st['own'][0]), st['own'][1]), 'the object returned by the override has another value after the call')
        d.require(d.eq(idof(d, o), st['id']), 'after the call the wrapper refers to another C++ object')
        if pe and any(isinstance(p, O) and p.c.name == c.name and p.dir == 'inout' for p in m.params):
            v = d.cint('%s.%s#0' % (pt, m.params[0].name), 32, 1)
        d.require(d.eq(vof(d, o), v), 'after the call the object has another value')


def bad_class(d, c, robj):
    return [p.c for m in c.methods for p in m.params if isinstance(p, O) and p.c.name != c.name and not (robj and p.c is robj.c)][0]


class VLife(object):
    """instances of a Python subclass of one class given to the library, called and released in any order"""
    tags = ('P15', 'P10')
    weight = 30

    def __init__(self, c, steps, registry, tags):
        self.c, self.steps, self.registry, self.tags = c, steps, registry, tags
        self.name = 'vlife/%s' % c.name

    def run(self, d):
        c = self.c
        n = c.name
        runs = []
        want = {}

        def f(me, x):
            runs.append((d.ival(d.getattr(me, 'tag')), idof(d, me), d.ival(x)))
            return d.int(want['r'])
        sub = d.subclass(mod(d, n), 'Sub', {'f': f})
        hs = []           # [handle or None, tag or None (no Python class), id, value, the object was given away]
        lib = None        # entry the library holds
        dead = lambda h: h[0] is None
        for step in range(self.steps):
            live = [h for h in hs if not dead(h)]
            ops = ['make', 'plain'] if len(hs) < 2 else []
            if live:
                ops += ['drop', 'gc']
            usable = [h for h in live if not h[4]]
            if usable:
                ops += ['keep', 'self']
            if lib is not None:
                ops += ['fire', 'peek', 'kill', 'give']
            if step == 0:
                ops = ['make', 'plain']
            op = ops[d.choose('op%d' % step, len(ops))]
            h = None
            if op in ('keep', 'drop', 'self'):
                if op != 'drop':
                    live = usable
                h = live[d.choose('h%d' % step, len(live))] if len(live) > 1 else live[0]
            d.events()
            d.reported()
            if op in ('make', 'plain'):
                v = i32(d, 'v%d' % step)
                o = d.call(sub if op == 'make' else mod(d, n), [d.int(v)])
                d.require(o is not None, 'an object cannot be made (%s)' % d.xname)
                if op == 'make':
                    d.require(d.setattr(o, 'tag', d.int(step)), 'an instance attribute cannot be set')
                hs.append([o, step if op == 'make' else None, idof(d, o), v, False])
            elif op == 'keep':
                if lib is not None:
                    self.lost(d, hs, lib, h)
                r = d.call(mod(d, n + '_keep'), [h[0]])
                d.require(r is not None, 'giving the object away fails (%s)' % d.xname)
                lib = h
                h[4] = c.pol is None     # only the library may use it now
            elif op == 'drop':
                d.drop(h[0])
                h[0] = None
            elif op == 'kill':
                self.lost(d, hs, lib, None)
                d.require(d.callm(d.module(), n + '_kill') is not None, 'the call fails (%s)' % d.xname)
                lib = None
            elif op == 'gc':
                d.collect()
            elif op == 'self':
                r = d.call(mod(d, n + '_self'), [h[0]])
                d.require(r is not None, 'passing the object fails (%s)' % d.xname)
                e = d.events()
                d.require(d.eq(e[-1][2][0], h[3]) and d.eq(e[-1][2][1], h[2]), 'C++ gets another object')
            elif op == 'give':
                r = d.callm(d.module(), n + ('_cgive' if d.choose('const%d' % step, 2) else '_give'))
                d.require(r is not None and d.kind(r) == 'wrapper', 'the call fails (%s)' % d.xname)
                d.require(d.eq(idof(d, r), lib[2]) and d.eq(vof(d, r), lib[3]), 'another object is returned')
                if lib[1] is not None:
                    t = d.getattr(r, 'tag')
                    d.require(t is not None and d.eq(d.ival(t), lib[1]), 'the instance of the Python class is not returned')
                    if lib[0] is not None:
                        d.require(d.is_(r, lib[0]), 'the object has another wrapper although one is alive')
                if lib[0] is None:
                    lib[0] = r
                elif lib[4]:          # only the new wrapper has the object
                    d.drop(lib[0])
                    lib[0] = r
                else:
                    d.drop(r)
                lib[4] = False
                lib = None
            elif op == 'peek':
                r = d.callm(d.module(), n + ('_cpeek' if d.choose('const%d' % step, 2) else '_peek'))
                d.require(r is not None and d.kind(r) == 'wrapper', 'the call fails (%s)' % d.xname)
                d.require(d.eq(idof(d, r), lib[2]) and d.eq(vof(d, r), lib[3]), 'another object is returned')
                if lib[1] is not None:
                    t = d.getattr(r, 'tag')
                    d.require(t is not None and d.eq(d.ival(t), lib[1]), 'the instance of the Python class is not returned')
                    if lib[0] is not None:
                        d.require(d.is_(r, lib[0]), 'the object has another wrapper although one is alive')
                elif self.registry and lib[0] is not None and not lib[4]:
                    d.require(d.is_(r, lib[0]), 'the object has another wrapper although one is alive')
                d.drop(r)
            elif op == 'fire':
                want['r'] = i32(d, 'r%d' % step)
                x = i32(d, 'x%d' % step)
                del runs[:]
                r = d.callm(d.module(), n + '_fire', d.int(x))
                d.require(r is not None and d.kind(r) == 'int', 'the call fails (%s)' % d.xname)
                d.require(d.reported() == 0, 'an error is reported although nothing failed')
                e = d.events()
                d.require(d.eq(e[0][2][0], lib[2]), 'the library holds another object')
                if lib[1] is not None:
                    d.require(len(runs) == 1, 'the override runs %d times' % len(runs))
                    d.require(d.eq(runs[0][0], lib[1]) and d.eq(runs[0][1], lib[2]), 'the override of another object runs')
                    d.require(d.eq(runs[0][2], x), 'the override gets another value')
                    d.require(d.eq(d.ival(r), want['r']), 'the C++ caller gets another value')
                else:
                    d.require(not runs and len(e) == 2 and e[1][0] == n + '::f', 'the C++ implementation does not run')
                    d.require(d.eq(e[1][2][0], lib[2]) and d.eq(e[1][2][1], x), 'the C++ implementation gets other values')
            for h in hs:
                if h[0] is not None and not h[4]:
                    d.require(d.eq(vof(d, h[0]), h[3]) and d.eq(idof(d, h[0]), h[2]), 'after %s a wrapper shows another object' % op)
        d.rec.append(len(hs))

    def lost(self, d, hs, lib, nxt):
        """the library releases its object: wrappers of objects it owned alone may no longer be used"""
        pass


def scenarios(hosts, registry=False, tags=('P15', 'P10'), steps=4):
    out = []
    for c in hosts:
        if c.store:
            out.append(VLife(c, steps, registry, tags))
            continue
        for m in c.methods:
            robj = getattr(m, 'robj', None)
            outs = m.ret != 'void' or any(not isinstance(p, O) and p.is_out() for p in m.params)
            hs = ['ok']
            if not m.pure:
                hs += ['raise', 'parent', 'none', 'bad']
            elif not outs:
                hs += ['raise', 'none', 'bad']
            for h in hs:
                out.append(VObj(c, m, h, tags=tags, registry=registry))
                if h == 'ok' and robj:
                    out.append(VObj(c, m, h, 'kept', tags, registry))
                    if any(isinstance(p, O) and p.c is robj.c for p in m.params):
                        out.append(VObj(c, m, h, 'arg', tags, registry))
    return out
