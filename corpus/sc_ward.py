"""scenarios for custodians and wards. The oracle is the graph of declared relations: an object lives as long as a handle reaches it"""
from sc_obj import i32
from gen_ward import FUNCS, SUBS


class Graph(object):
    def __init__(self, d):
        self.d, self.h, self.w, self.edges = d, [], [], []
        self.base = self.count()

    def count(self):
        r = self.d.call(self.d.getattr(self.d.module(), 'live'), [])
        n = self.d.ival(r)
        self.d.drop(r)
        self.d.events()
        return n

    def add(self, handle, weight=1):
        self.h.append(handle)
        self.w.append(weight)
        return len(self.h) - 1

    def link(self, c, w):
        self.edges.append((c, w))

    def reach(self):
        s = set(i for i, h in enumerate(self.h) if h is not None)
        while True:
            n = set(w for c, w in self.edges if c in s) - s
            if not n:
                return s
            s |= n

    def cyclic(self):
        r = self.reach()
        return True if any((w, c) in self.edges for c, w in self.edges) else False

    def check(self, what):
        d = self.d
        if self.cyclic():
            d.collect()
        n = self.count()
        e = self.base
        for i in self.reach():
            e += self.w[i]
        d.require(d.not_(d.lts(n, e)), what + ': a ward is destroyed before its custodian')
        d.require(d.eq(n, e), what + ': an object is kept alive that nothing holds')

    def drop(self, i):
        self.d.drop(self.h[i])
        self.h[i] = None

    def use(self):
        """what is kept alive is the object itself: its value can still be read"""

    def finish(self, what='after'):
        d = self.d
        left = [i for i, h in enumerate(self.h) if h is not None]
        k = 0
        while left:
            j = d.choose('drop%d' % k, len(left)) if len(left) > 1 else 0
            self.drop(left.pop(j))
            self.check('%s dropping handle %d' % (what, k))
            k += 1


def cls(d, c):
    return d.getattr(d.module(), c)


def mk(d, c, tag, py=False):
    t = cls(d, c)
    if py:
        t = d.subclass(t, 'Py' + c, {})
    o = d.call(t, [d.int(i32(d, tag))])
    d.require(o is not None, 'an instance cannot be made')
    d.events()
    return o


class One(object):
    """one call of one function, with every kind of participant, and every order of dropping the handles afterwards"""
    def __init__(self, f, tags=('P14',)):
        self.f, self.tags, self.name = f, tags, 'one/' + f.id

    def run(self, d):
        f = self.f
        g = Graph(d)
        num = {}
        args = []
        fails = False
        omit = False
        if f.kind == 'meth':
            py = f.on in SUBS and d.choose('self.py', 2)
            num[0] = g.add(mk(d, f.on, 'self', py))
        for i, (c, md) in enumerate(f.params):
            hows = ['ctor'] + (['py'] if c in SUBS else []) + (['none'] if md == 'nul' else []) + (['omit'] if md == 'def' else []) + \
                (['same'] if any(n in num and f.params[n - 1][0] == c for n in range(1, i + 1)) else [])
            how = hows[d.choose('a%d' % i, len(hows))] if len(hows) > 1 else hows[0]
            if how == 'omit':
                omit = True
                continue
            if how == 'none':
                args.append(d.none())
                continue
            if how == 'same':
                num[i + 1] = num[[n for n in range(1, i + 1) if f.params[n - 1][0] == c][0]]
                args.append(g.h[num[i + 1]])
                continue
            num[i + 1] = g.add(mk(d, c, 'v%d' % i, how == 'py'))
            args.append(g.h[num[i + 1]])
        if f.tail:
            z = d.ivar('z')
            d.assume(d.inrange(z, -(1 << 40), 1 << 40))
            args.append(d.int(z))
            fails = d.decide(d.not_(d.inrange(z, -(1 << 15), (1 << 15) - 1)))
        if f.kind == 'func':
            r = d.call(d.getattr(d.module(), f.name), args)
        elif f.kind == 'meth':
            r = d.callm(g.h[num[0]], f.name, *args)
        else:
            t = cls(d, f.on)
            if f.on in SUBS and d.choose('self.py', 2):
                t = d.subclass(t, 'PyK', {})
            r = d.call(t, args)
            if r is not None:
                num[0] = g.add(r)
        ev = d.events()
        d.rec.append(d.xname if r is None else 'ok')
        thrown = f.throw and bool(ev) and d.made(f.id + '.t#0')
        ok = not fails and not thrown
        cust = [(f.ret.split()[1] if c == -1 else f.on if c == 0 else f.params[c - 1][0]) for c, w, p in f.rels]
        if 'N' in cust and r is None:
            d.require(d.xname in ('AttributeError', 'TypeError'), 'the wrong exception (%s)' % d.xname)
            if g.h:
                g.finish('refused relation:')
            return
        if not ok:
            d.require(r is None, 'the call succeeds although it fails')
            if fails:
                d.require(not ev, 'the function runs although an argument is refused')
            # whether a failed call keeps the ward is left open
            while any(h is not None for h in g.h):
                g.drop([i for i, h in enumerate(g.h) if h is not None][0])
            d.collect()
            d.require(d.eq(g.count(), g.base), 'an object outlives a failed call')
            return
        d.require(r is not None, 'the call fails (%s)' % d.xname)
        d.require(f.kind == 'ctor' or len(ev) == 1, 'the function does not run once')
        if f.ret and f.ret != 'int':
            if d.kind(r) == 'none':
                d.require(f.name == 'ret_nul', 'the function returns None')
            else:
                num[-1] = g.add(r, 1 if f.ret.startswith('new') else 0)
        else:
            if f.ret == 'int':
                d.require(d.eq(d.ival(r), 5), 'the wrong result')
            if f.kind != 'ctor':
                d.drop(r)
        for c, w, p in f.rels:
            if c in num and w in num and num[c] != num[w]:
                g.link(num[c], num[w])
            elif c in num and w in num:
                g.link(num[c], num[c])
        g.check('after the call')
        g.finish()
        for i in range(len(args)):
            d.drop(args[i])


class Hist(object):
    """sequences of links between two custodians and two wards, with every order of dropping the handles at the end"""
    def __init__(self, fn, cc, wc, steps, drops=False, tags=('P14',)):
        self.fn, self.cc, self.wc, self.steps, self.drops, self.tags, self.name = fn, cc, wc, steps, drops, tags, 'hist/%s/%s/%d' % (fn, wc, steps)
        self.weight = 50

    def run(self, d):
        g = Graph(d)
        cs = [g.add(mk(d, c, 'c%d' % i)) for i, c in enumerate(self.cc)]
        ws = [g.add(mk(d, self.wc, 'w%d' % i)) for i in range(2)]
        for s in range(self.steps):
            n = d.choose('s%d' % s, len(cs) * 2)
            c, w = cs[n // 2], ws[n % 2]
            if self.fn == 'hold':
                r = d.callm(g.h[c], 'hold', g.h[w])
            elif self.fn in ('into', 'into_post'):
                r = d.callm(g.h[w], self.fn, g.h[c])
            else:
                r = d.call(d.getattr(d.module(), self.fn), [g.h[c], g.h[w]])
            d.require(r is not None, 'the call fails (%s)' % d.xname)
            d.drop(r)
            d.events()
            g.link(c, w)
        g.finish()
        d.rec.append('ok')


class Held(object):
    """the ward reached after its handle is gone is the ward itself, unchanged; and custodians that are dropped early release theirs while others keep them"""
    def __init__(self, f, tags=('P14',)):
        self.f, self.tags, self.name = f, tags, 'held/' + f

    def run(self, d):
        g = Graph(d)
        c = g.add(mk(d, 'C', 'c'))
        n = 1 + d.choose('n', 3)
        for k in range(n):
            w = g.add(mk(d, 'W', 'w%d' % k))
            if self.f == 'hold':
                r = d.callm(g.h[c], 'hold', g.h[w])
            else:
                r = d.call(d.getattr(d.module(), self.f), [g.h[c], g.h[w]])
            d.require(r is not None, 'the call fails')
            d.drop(r)
            d.events()
            g.link(c, w)
            g.drop(w)
            g.check('after step %d' % k)
        g.finish()
        d.rec.append('ok')


def scenarios(tags=('P14',)):
    out = [One(f, tags) for f in FUNCS]
    out += [Hist('lnk', ('C', 'C'), 'W', 3, tags=tags), Hist('lnk_post', ('C', 'D'), 'W', 2, tags=tags), Hist('lnk_d', ('D', 'D'), 'E', 3, tags=tags),
            Hist('hold', ('C', 'D'), 'W', 3, tags=tags), Hist('into', ('C', 'C'), 'W', 2, tags=tags), Hist('into_post', ('C', 'C'), 'E', 3, tags=tags)]
    out += [Held(f, tags) for f in ('hold', 'lnk', 'lnk_post', 'lnk_nul', 'lnk_val')]
    return out
