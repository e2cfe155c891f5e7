"""scenarios for operators: the oracle follows the documented dispatch of Python operators over the table of registered C++ operators"""
from sc_obj import i32
from gen_op import ops

NUM = ('+', '-', '*', '/')
SWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


class Operand(object):
    def __init__(self, d, by, kind, tag):
        self.kind = kind
        self.cls = None
        py = kind.startswith('py:')
        k = kind[3:] if py else kind
        self.type = kind
        if k in by:
            self.cls = by[k]
            m = d.module()
            t = d.getattr(d.getattr(m, self.cls.ns) if self.cls.ns else m, k)
            if py:
                t = d.subclass(t, 'Py' + k, {})
            self.val = i32(d, tag)
            self.h = d.call(t, [d.int(self.val)])
            d.require(self.h is not None, 'an instance cannot be made (%s)' % d.xname)
        elif k == 'none':
            self.h = d.none()
        else:
            self.h = d.make(tag, k)
            self.val = d.sval(self.h) if k.startswith('str') else d.dval(self.h) if k == 'float' else d.ival(self.h)

    def matches(self, d, t, by):
        """value the C++ operator gets for this operand as type t, in a tuple, or None"""
        if t in by:
            return (self.val,) if self.cls is not None and self.cls.issub(by[t]) else None
        if t == 'int':
            if self.kind in ('int', 'bool') and d.decide(d.inrange(self.val, -(1 << 31), (1 << 31) - 1)):
                return (self.val,)
            return None
        if t == 'double':
            if self.kind == 'float':
                return (self.val,)
            if self.kind in ('int', 'bool'):
                return (d.int_as_f64(self.val),)
            return None
        if t == 'std::string':
            return (self.val,) if self.kind.startswith('str') else None

    def unchanged(self, d, what):
        if self.cls is not None:
            h = d.getattr(self.h, 'v')
            d.require(h is not None and d.eq(d.ival(h), self.val), what + ' is changed by the operator')


def owner(c, has):
    """the class whose slot the instances of c have"""
    while c is not None and not has(c):
        c = c.parent
    return c


def subtype(b, a):
    """whether the type of b is a proper subtype of that of a"""
    return a.cls is not None and b.cls is not None and a.type != b.type and b.cls.issub(a.cls) and not a.type.startswith('py:')


class Bin(object):
    """left op right"""
    def __init__(self, classes, op, l, r, tags=('P17',)):
        self.classes, self.op, self.l, self.r, self.tags, self.name = classes, op, l, r, tags, 'num/%s%s%s' % (l, op, r)

    def run(self, d):
        by = dict((c.name, c) for c in self.classes)
        a, b = Operand(d, by, self.l, 'a'), Operand(d, by, self.r, 'b')
        d.events()
        op = self.op
        tries = []
        if len(op) == 2:
            o = owner(a.cls, lambda c: op in c.num)
            if o:
                tries += [(op, o.name, o.name, e) for e in o.num[op]]
        bop = op[0]
        fa, fb = [owner(x.cls, lambda c: bop in c.num) for x in (a, b)]
        if fa is fb or a.type == b.type:
            fb = None
        fs = [fa, fb]
        if fa and fb and subtype(b, a):
            fs = [fb, fa]
        for f in fs:
            if f:
                tries += [(bop,) + tuple(e) for e in f.num[bop]]
        want = None
        for o, res, lt, rt in tries:
            x, y = a.matches(d, lt, by), b.matches(d, rt, by)
            if x is not None and y is not None:
                want = (lt + o + rt, res, x + y)
                break
        r = d.binop(a.h, op, b.h)
        ev = d.events()
        d.rec.append(d.xname if r is None else 'ok')
        if want is None:
            d.require(r is None and d.exc_is('TypeError'), 'operands that are not registered are accepted')
            d.require(not ev, 'an operator runs although its operands are not registered')
        else:
            n, res, vals = want
            d.require(r is not None, 'registered operands are refused (%s)' % d.xname)
            d.require(len(ev) == 1 and ev[0][0] == n, 'not the registered operator runs (%s)' % [e[0] for e in ev])
            for x, y in zip(vals, ev[0][2]):
                d.require(d.eq(x, y), 'the operator sees other operands')
            d.require(any(d.type_is(r, d.getattr(d.getattr(d.module(), k.ns) if k.ns else d.module(), k.name)) for k in [by[res]]), 'the result has the wrong type')
            h = d.getattr(r, 'v')
            d.require(d.eq(d.ival(h), d.cint(n + '#0', 32, 1)), 'the result is not that of the C++ operator')
            d.require(not d.is_(r, b.h), 'the result is the right operand')
        b.unchanged(d, 'the right operand')
        if len(op) == 1:
            a.unchanged(d, 'the left operand')


class Neg(object):
    def __init__(self, classes, k, tags=('P17',)):
        self.classes, self.k, self.tags, self.name = classes, k, tags, 'neg/' + k

    def run(self, d):
        by = dict((c.name, c) for c in self.classes)
        a = Operand(d, by, self.k, 'a')
        d.events()
        o = owner(a.cls, lambda c: c.neg)
        r = d.neg(a.h)
        ev = d.events()
        d.rec.append(d.xname if r is None else 'ok')
        if o is None:
            d.require(r is None and d.exc_is('TypeError') and not ev, 'an operator that is not registered is accepted')
        else:
            d.require(r is not None, 'the operator fails (%s)' % d.xname)
            n = o.name + '-'
            d.require(len(ev) == 1 and ev[0][0] == n and d.eq(ev[0][2][0], a.val), 'not the registered operator runs on the operand')
            d.require(d.type_is(r, d.getattr(d.module(), o.neg[0])), 'the result has the wrong type')
            d.require(d.eq(d.ival(d.getattr(r, 'v')), d.cint(n + '#0', 32, 1)), 'the result is not that of the C++ operator')
        a.unchanged(d, 'the operand')


class Cmp(object):
    def __init__(self, classes, op, l, r, tags=('P17',)):
        self.classes, self.op, self.l, self.r, self.tags, self.name = classes, op, l, r, tags, 'cmp/%s%s%s' % (l, op, r)

    def run(self, d):
        by = dict((c.name, c) for c in self.classes)
        a = Operand(d, by, self.l, 'a')
        same = self.r == 'same'
        b = a if same else Operand(d, by, self.r, 'b')
        d.events()
        op = self.op
        fa, fb = [owner(x.cls, lambda c: c.cmp) for x in (a, b)]
        tries = [(fa, a, b, op), (fb, b, a, SWAP[op])]
        strict = subtype(b, a)
        if strict and fb:
            tries = [tries[1], tries[0]]
        want = None
        for f, x, y, o in tries:
            if f is not None and y.cls is not None and y.cls.issub(f) and o in f.cmp:
                want = (f.name + o + f.name, x, y)
                break
        r = d.compare(a.h, op, b.h)
        ev = d.events()
        d.rec.append(d.xname if r is None else d.ival(r))
        if want is None:
            d.require(not ev, 'a comparison runs that is not registered for the operands')
            if op in ('==', '!='):
                d.require(r is not None and d.kind(r) == 'bool', 'equality of unrelated objects fails')
                d.require(d.eq(d.ival(r), int(same == (op == '=='))), 'unrelated objects are equal')
            else:
                d.require(r is None and d.exc_is('TypeError'), 'operands that are not registered are accepted')
        else:
            n, x, y = want
            d.require(r is not None and d.kind(r) == 'bool', 'the comparison fails (%s)' % d.xname)
            d.require(len(ev) == 1 and ev[0][0] == n, 'not the registered comparison runs')
            d.require(d.eq(ev[0][2][0], x.val) and d.eq(ev[0][2][1], y.val), 'the comparison sees other operands')
            d.require(d.eq(d.ival(r), d.made(n + '#0')), 'the result is not that of the C++ comparison')
        a.unchanged(d, 'the left operand')
        b.unchanged(d, 'the right operand')


def scenarios(classes, tags=('P17',)):
    out = []
    kinds = [c.name for c in classes] + ['py:' + c.name for c in classes if c.canpy()]
    other = ['int', 'bool', 'float', 'str1', 'none']
    by = dict((c.name, c) for c in classes)

    def cl(k):
        return by.get(k[3:] if k.startswith('py:') else k)
    anyop = dict((op, [c for c in classes if op in c.num]) for op in NUM + tuple(o + '=' for o in NUM))
    for op in NUM + tuple(o + '=' for o in NUM):
        for l in kinds + other:
            for r in kinds + other:
                rel = [k for k in (cl(l), cl(r)) if k is not None]
                if not rel or not any(owner(k, lambda c: op in c.num or op[0] in c.num) for k in rel):
                    continue
                out.append(Bin(classes, op, l, r, tags))
    out += [Neg(classes, k, tags) for k in kinds]
    for op in SWAP:
        for l in kinds + other:
            for r in kinds + other + ['same']:
                rel = [k for k in (cl(l), cl(r)) if k is not None]
                if not any(owner(k, lambda c: c.cmp) for k in rel) or (r == 'same' and cl(l) is None):
                    continue
                if len(rel) == 2 and not all(owner(k, lambda c: c.cmp) for k in rel) and rel[0].name > 'H':
                    continue
                out.append(Cmp(classes, op, l, r, tags))
    return out
