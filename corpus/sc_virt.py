"""oracle for virtual methods called from C++ and overridden in Python"""
import sc_scalar
from sc_scalar import MUST, MAY, NEVER, KINDS, valid_utf8


def mod(d, n):
    return d.getattr(d.module(), n)


class Virt(object):
    """one virtual call of one method"""
    weight = 2

    def __init__(self, c, m, how, tags=('P15',)):
        self.c, self.m, self.how, self.tags = c, m, how, tags
        self.name = '%s.%s/%s' % (c.name, m.name, how)

    def outs(self):
        m = self.m
        return ([m.rets] if m.ret != 'void' else []) + [p for p in m.params if p.is_out()]

    def run(self, d):
        c, m, how = self.c, self.m, self.how
        t = 'drv_%s_%s' % (c.name, m.name)
        calls = []
        st = {}

        def override(me, *args):
            calls.append(1)
            d.require(d.is_(me, st['o']), 'the override runs with another object')
            d.require(d.eq(d.ival(d.callm(me, 'ident')), st['id']), 'inside the override the wrapper refers to another C++ object')
            ins = [p for p in m.params if p.is_in()]
            d.require(len(args) == len(ins), 'the override gets %d arguments instead of %d' % (len(args), len(ins)))
            for p, a in zip(ins, args):
                sc_scalar.check_value(d, p, a, sc_scalar.libval(d, p, '%s.%s' % (t, p.name)), 'the argument %s of the override' % p.name)
            if how == 'raise':
                d.throw()
            if how == 'parent':
                r = d.basecall(mod(d, c.name), m.name, me, *args)
                st['parent'] = r
                if r is None:
                    st['parent_x'] = d.xname
                    d.throw()
                return r
            return st['ret']()
        outs = self.outs()

        def ret():
            if how == 'bad':          # result of a void method without outputs
                return d.arg('r', ['int', 'str1', 'none'])
            if how == 'short':
                k = d.choose('short', 3)
                if k == 0:
                    return d.tuple([d.arg('x%d' % i, KINDS[p.sem[0]][:1]) for i, p in enumerate(outs)][1:])
                if k == 1:
                    return d.tuple([d.arg('x%d' % i, KINDS[p.sem[0]][:1]) for i, p in enumerate(outs)] + [d.none()])
                return d.none()
            if m.pure and m.ret != 'void':
                st['os'] = [d.arg('x0', KINDS[outs[0].sem[0]][:1])]
                d.assume(d.inrange(d.ival(st['os'][0]), -(1 << 31), (1 << 31) - 1))
                return st['os'][0]
            os = [d.arg('x%d' % i, KINDS[p.sem[0]] if i == 0 else [k for k in KINDS[p.sem[0]] if k != 'none']) for i, p in enumerate(outs)]
            st['os'] = os
            if not os:
                return d.none()
            return os[0] if len(os) == 1 else d.tuple(os)
        st['ret'] = ret
        sub = d.subclass(mod(d, c.name), 'Sub', {} if how == 'none' else {m.name: override})
        v = d.ivar('v')
        d.assume(d.inrange(v, -(1 << 31), (1 << 31) - 1))
        o = d.call(sub, [d.int(v)])
        d.require(o is not None, 'an object of the Python class cannot be made (%s)' % d.xname)
        st['o'] = o
        st['id'] = d.ival(d.callm(o, 'ident'))
        d.events()
        d.reported()
        r = d.call(mod(d, t), [o])
        evs = d.events()
        d.require(r is not None, 'the exception of the override escapes from the C++ function (%s)' % d.xname)
        d.require(d.kind(r) == 'none', 'the result of a void function is not None')
        rep = d.reported()
        d.rec.append([len(calls), rep, [e[0] for e in evs]])
        d.require(len(calls) <= (0 if how == 'none' else 1), 'the override runs %d times' % len(calls))
        d.require(evs and evs[-1][0] == t, 'the C++ function does not end')
        logged = list(evs[-1][2])
        prov = c.provider(m)
        pt = '%s::%s' % (prov.name, m.name)
        ins = [p for p in m.params if p.is_in()]

        def parent_ran(n=1, partial=False):
            pe = [e for e in evs if e is not evs[-1]]
            d.require(len(pe) == n, 'the parent implementation runs %d times' % len(pe))
            for e in pe:
                d.require(e[0] == pt, '%s runs instead of %s' % (e[0], pt))
                vals = [st['id']] + [sc_scalar.libval(d, p, '%s.%s' % (t, p.name)) for p in ins]
                d.require(len(e[2]) == len(vals), 'wrong number of values')
                for x, y, p in zip(e[2], vals, [None] + ins):
                    if partial and p is not None and p.is_out():    # may already have the value of the override
                        continue
                    if p is not None and p.sem[0] == 'char':
                        y = d.widen(y[0])
                    d.require(d.eq(x, y) if p is None or p.sem[0] != 'float' else d.eq(d.f64(x), y), 'the parent implementation gets another argument value')

        def parent_values(k=0):
            for p, x in zip(outs, logged):
                tag = pt + ('.r' if p is m.rets else '.' + p.name)
                y = sc_scalar.libval(d, p, tag, k)
                if p.sem[0] == 'float':
                    x = d.f64(x)
                if p.sem[0] == 'char':
                    y = d.widen(y[0])
                d.require(d.eq(x, y), 'the C++ caller does not get the value of the parent implementation')
        self.after(d, o, v, st)
        if how != 'none' and not calls:
            # allowed only when an argument is text that Python cannot have
            good = [d.decide(valid_utf8(d, sc_scalar.libval(d, p, '%s.%s' % (t, p.name)))) for p in ins if p.sem[0] in ('str', 'cstr')]
            d.require(not all(good), 'the override does not run')
            d.require(rep == 1, 'the error is not reported')
            if m.ret != 'void' and m.vis != 'private' and not m.pure:
                parent_ran()
                parent_values()
            return
        if how == 'none':
            d.require(rep == 0, 'an error is reported although nothing failed')
            if m.pure or m.vis == 'private':
                d.require(len(evs) == 1, 'C++ code runs for a pure virtual method')
                return
            parent_ran()
            parent_values()
            return
        if how == 'parent':
            ok = st.get('parent') is not None
            if ok:
                d.require(rep == 0, 'an error is reported although nothing failed')
                parent_ran()
                parent_values()
                return
            # the values of the parent cannot be converted (text that is not UTF-8, null)
            d.require(rep == 1, 'the exception of the override is not reported')
            return
        good = MUST if how == 'ok' or how == 'bad' else NEVER
        vals = []
        if how == 'bad':
            # what the override returned; None is the only usable value
            good = MUST if st_none(d) else NEVER
        if how == 'ok':
            for p, x in zip(outs, st['os']):
                s, y = sc_scalar.accepts(d, p, x)
                if s == NEVER:
                    good = NEVER
                    break
                if s == MAY:
                    good = MAY
                vals.append(y)
        if good == MUST or good == MAY and rep == 0:
            d.require(rep == 0, 'an error is reported although the override returns usable values')
            d.require(len(evs) == 1, 'the parent implementation runs although the override returns usable values')
            d.require(len(logged) == len(vals), 'wrong number of values')
            for p, x, y in zip(outs, logged, vals):
                if y is None and p.sem[0] != 'cstr':
                    continue
                d.require(d.eq(x, y), 'the C++ caller does not get the value of the override')
            return
        d.require(rep >= 1, 'the error of the override is not reported')
        if m.ret != 'void' and not m.pure and m.vis != 'private':
            parent_ran(partial=True)
            parent_values()

    def after(self, d, o, v, st):
        d.require(d.eq(d.ival(d.callm(o, 'ident')), st['id']), 'after the call the wrapper refers to another C++ object')
        d.require(d.eq(d.ival(d.getattr(o, 'v')), v), 'after the call the object has another value')


def st_none(d):
    return d.made('r.none') == 1


def scenarios(classes, tags=('P15',), only={}):
    """only: class name -> names of the scenarios to keep"""
    out = []
    for c in classes:
        for m in c.all():
            if c.name in only:
                out += [Virt(c, m, h, tags) for h in ('ok', 'none') if (m.name, h) in only[c.name]]
                continue
            hs = ['ok', 'raise', 'short']
            if m.ret == 'void' and not any(p.is_out() for p in m.params):
                hs = ['ok', 'raise', 'bad']
            if not (m.pure and m.ret != 'void'):
                hs.append('none')
            if not m.pure and m.vis != 'private':
                hs.append('parent')
            t = tags if m.call == 'plain' else tuple(tags) + ('P12',)
            for h in hs:
                if m.pure and m.ret != 'void' and h in ('raise', 'short'):
                    continue
                outs = ([m.rets] if m.ret != 'void' else []) + [p for p in m.params if p.is_out()]
                if h == 'short' and len(outs) == 1 and outs[0].sem[0] == 'bool':
                    continue
                out.append(Virt(c, m, h, t))
    return out
