"""oracle for reading, writing and deleting wrapped attributes"""
import sc_scalar
from sc_scalar import MUST, NEVER, KINDS


def mod(d, n):
    return d.getattr(d.module(), n)


class Attr(object):
    tags = ('P18',)
    weight = 1

    def __init__(self, c, a, op):
        """op: get, set, del, keep (read, change in C++, read again)"""
        self.c, self.a, self.op = c, a, op
        self.name = '%s.%s/%s' % (c.name, a.name, op)

    def dump(self, d, k):
        d.events()
        r = d.call(mod(d, self.c.name + '_dump'), [k])
        d.require(r is not None, 'dump fails (%s)' % d.xname)
        vals = list(d.events()[-1][2])
        out = {}
        for a in self.c.all():
            n = 1 if a.kind == 'scalar' else 2
            out[a.cls.name, a.name] = vals[:n]
            vals = vals[n:]
        return out

    def same(self, d, x, y, but=None):
        for n in x:
            if n != but:
                d.require(len(x[n]) == len(y[n]) and all(d.eq(u, v) is True or d.eq(u, v) is not False and self._eq(d, u, v) for u, v in zip(x[n], y[n])),
                          'attribute %s changes' % n[1])

    def _eq(self, d, u, v):
        d.require(d.eq(u, v), 'another attribute changes')
        return True

    def poked(self, d, k):
        a = self.a
        t = 'poke_%s_%s' % (a.cls.name, a.name)
        r = d.call(mod(d, t), [k])
        d.require(r is not None, 'poke fails (%s)' % d.xname)
        d.events()
        return t

    def evs(self, d, what, k):
        """the declared getter or setter runs exactly once, on this object"""
        a = self.a
        e = [x for x in d.events() if x[0] == '%s::%s.%s' % (a.cls.name, a.name, what)]
        if a.how == 'plain' or what == 'set' and a.how == 'get':
            return None
        d.require(len(e) == 1, 'the %ster runs %d times' % (what, len(e)))
        d.require(d.eq(e[0][2][0], self.id), 'the %ster runs on another object' % what)
        return e[0]

    def check(self, d, r, t, holder):
        """r: object read; the C++ value has tag t"""
        a = self.a
        if a.kind == 'scalar':
            v = sc_scalar.libval(d, a.p, t)
            if r is None:
                d.require(a.p.sem[0] in ('str', 'cstr') and d.not_(sc_scalar.valid_utf8(d, v)), 'reading fails (%s)' % d.xname)
                return
            sc_scalar.check_value(d, a.p, r, v, 'the attribute read')
            return
        d.require(r is not None, 'reading fails (%s)' % d.xname)
        if a.kind != 'A' and d.made(t + '.null#0'):
            d.require(d.kind(r) == 'none', 'a null attribute reads as %s' % d.kind(r))
            return
        d.require(d.type_is(r, mod(d, 'W' if a.kind == 'W' else 'A')), 'the attribute reads as another type')
        d.require(d.eq(d.ival(d.getattr(r, 'v')), d.cint(t + '#0', 32, 1)), 'the attribute read has another value')

    def run(self, d):
        c, a, op = self.c, self.a, self.op
        k = d.call(mod(d, c.name), [])
        d.require(k is not None, 'constructor fails')
        k2 = d.call(mod(d, c.name), [])
        self.id = d.ival(d.callm(k, 'ident'))
        # static attributes are reached through the class, the others through the instance
        h = mod(d, c.name) if a.static else k
        before2 = self.dump(d, k2)
        if op in ('get', 'keep'):
            if a.const and a.static:
                r = d.getattr(h, a.pyname)
                d.require(r is not None and d.kind(r) == 'int', 'a constant cannot be read')
                d.require(d.eq(d.ival(r), int(a.init)), 'a constant has another value')
                return
            t = self.poked(d, k)
            before = self.dump(d, k)
            d.events()
            r = d.getattr(h, a.pyname)
            self.evs(d, 'get', k)
            self.check(d, r, t, h)
            d.rec.append([r is not None, d.xname if r is None else ''])
            if op == 'keep':
                if a.kind == 'A' and r is not None:
                    d.require(d.setattr(r, 'v', d.int(123)), 'the attribute of a copy cannot be set')
                elif a.kind == 'W' and r is not None and d.kind(r) != 'none':
                    d.require(d.eq(d.ival(d.callm(r, 'ident')), before[a.cls.name, a.name][1]), 'a shared pointer reads as another object')
                elif a.kind == 'Aref' and r is not None and d.kind(r) != 'none':
                    d.require(d.eq(d.ival(d.callm(r, 'ident')), before[a.cls.name, a.name][1]), 'a pointer reads as another object')
                r2 = d.getattr(h, a.pyname)
                self.check(d, r2, t, h)
            self.same(d, before, self.dump(d, k))
            if not a.static:
                self.same(d, before2, self.dump(d, k2))
            return
        before = self.dump(d, k)
        me = (a.cls.name, a.name)
        d.events()
        if op == 'del':
            ok = d.setattr(h, a.pyname, None)
            d.require(not ok, 'the attribute can be deleted')
            d.require(d.exc_is('AttributeError') or d.exc_is('TypeError'), 'deleting the attribute raises %s' % d.xname)
            d.require(not d.events(), 'deleting the attribute runs C++ code')
            self.same(d, before, self.dump(d, k))
            return
        objs = {'A': 'A', 'Aref': 'A', 'W': 'W'}.get(a.kind)
        if objs:
            w = d.choose('what', 4)
            v = d.ivar('v')
            d.assume(d.inrange(v, -(1 << 31), (1 << 31) - 1))
            if w == 0:
                x = d.call(mod(d, objs), [d.int(v)])
            elif w == 1:
                x = d.call(mod(d, 'W' if objs == 'A' else 'A'), [d.int(v)])
            else:
                x = d.int(v) if w == 2 else d.none()
            good = MUST if w == 0 else NEVER
            val = v
        else:
            x = d.arg('x', KINDS[a.p.sem[0]])
            good, val = sc_scalar.accepts(d, a.p, x)
        ident = d.ival(d.callm(x, 'ident')) if objs and good == MUST else None
        d.events()
        ok = d.setattr(h, a.pyname, x)
        d.rec.append([ok, d.xname if not ok else ''])
        if a.const:
            d.require(not ok, 'a read-only attribute can be written')
            d.require(d.exc_is('AttributeError') or d.exc_is('TypeError'), 'writing a read-only attribute raises %s' % d.xname)
            d.require(not d.events(), 'writing a read-only attribute runs C++ code')
            self.same(d, before, self.dump(d, k))
            return
        if good == NEVER:
            d.require(not ok, 'an unacceptable value is accepted')
        elif good == MUST:
            d.require(ok, 'an acceptable value is rejected (%s)' % d.xname)
        if not ok:
            d.require(not d.events(), 'the setter runs although the value is unacceptable')
            self.same(d, before, self.dump(d, k))
            return
        e = self.evs(d, 'set', k)
        after = self.dump(d, k)
        self.same(d, before, after, but=me)
        if not a.static:
            self.same(d, before2, self.dump(d, k2))
        if objs:
            vals = [after[me], e[2][1:]] if e is not None else [after[me]]
            for l in vals:
                d.require(d.eq(l[0], val), 'the attribute does not hold the given value')
                if a.kind == 'W':
                    d.require(d.eq(l[1], ident), 'the attribute does not share the given object')
            if a.kind == 'A':
                d.require(d.eq(after[me][1], before[me][1]), 'the attribute is another object')
                d.require(d.setattr(x, 'v', d.int(5)), 'set v')
                d.require(d.eq(self.dump(d, k)[me][0], val), 'the attribute is not an independent copy')
            return
        if val is not None:
            for l in [after[me]] + ([e[2][1:]] if e is not None else []):
                d.require(d.eq(l[0], val), 'the attribute does not hold the given value')
        r = d.getattr(h, a.pyname)
        d.require(r is not None or a.p.sem[0] == 'str', 'reading the attribute back fails (%s)' % d.xname)


def scenarios(classes, tags=('P18',)):
    out = []
    for c in classes:
        for a in c.all():
            if a.cls is not c and a.name not in ('i0', 'g0', 's0', 'o0'):
                continue
            ops = ['get', 'set', 'del'] + (['keep'] if a.kind != 'scalar' else [])
            out += [Attr(c, a, o) for o in ops]
    return out
