"""oracle for calls of wrapped functions with scalar, string and object parameters"""
import gen

KINDS = {'int': ['int', 'none', 'bool', 'float', 'str1', 'other'], 'bool': ['int', 'none', 'bool', 'float', 'str1', 'other', 'badbool'],
         'float': ['float', 'none', 'int', 'bool', 'str1'], 'double': ['float', 'none', 'int', 'bool', 'str1'],
         'cstr': ['str2', 'none', 'str0', 'str1', 'bytes1', 'int'], 'str': ['str2', 'none', 'str0', 'str1', 'bytes0', 'bytes2', 'int'],
         'char': ['bytes1', 'none', 'bytes0', 'bytes2', 'str1', 'int'], 'obj': ['int', 'none', 'str1', 'other']}
MUST, MAY, NEVER = 'accept', 'may', 'reject'


def accepts(d, p, o):
    """(must / may / never accepted, value the C++ side sees)"""
    s = p.sem
    k = d.kind(o)
    if s[0] == 'int':
        if k not in ('int', 'bool'):
            return NEVER, None
        w, sg = s[1], s[2]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        v = d.ival(o)
        if d.decide(d.inrange(v, lo, hi)):
            return MUST, v
        if p.mode == 'val' and w <= 16:
            return NEVER, None
        return MAY, d.wrap(v, w, sg)
    if s[0] == 'bool':
        if d.truth_fails(o):
            return NEVER, None
        return MUST, int(d.decide(d.truth(o)))
    if s[0] in ('float', 'double'):
        if k == 'float':
            v = d.dval(o)
        elif k in ('int', 'bool'):
            v = d.int_as_f64(d.ival(o))
        else:
            return NEVER, None
        return MUST, v if s[0] == 'double' else d.f32(v)
    if s[0] == 'cstr':
        if k == 'str':
            b = d.sval(o)
            for c in b:
                if d.decide(d.eq(c, 0)):
                    return NEVER, None
            return MUST, b
        if k == 'bytes':
            return MAY, d.sval(o)
        return (MAY, None) if k == 'none' else (NEVER, None)
    if s[0] == 'str':
        if k == 'str':
            return MUST, d.sval(o)
        return (MAY, d.sval(o)) if k == 'bytes' else (NEVER, None)
    if s[0] == 'char':
        if k == 'bytes' and len(d.sval(o)) == 1:
            return MUST, d.widen(d.sval(o)[0])
        if k == 'str' and len(d.sval(o)) == 1:
            return MAY, d.widen(d.sval(o)[0])
        return NEVER, None
    if s[0] == 'obj':
        return MUST, d.objid(o)
    raise AssertionError(s)


def default(d, p):
    v = p.dval
    if p.sem[0] == 'double':
        return d.const_f64(v)
    if isinstance(v, bytes):
        return tuple(v)
    return None if v == 'null' else v


def libval(d, p, tag, k=0):
    """value the library produced under that tag (k-th use)"""
    s = p.sem
    n = '%s#%d' % (tag, k)
    if s[0] == 'int':
        return d.cint(n, s[1], s[2])
    if s[0] == 'bool':
        return d.cint(n, 1, 0)
    if s[0] == 'float':
        return d.f64(d.ivar(n, 32))
    if s[0] == 'double':
        return d.nn(d.ivar(n, 64))
    if s[0] == 'char':
        return (d.ivar(n, 8),)
    if s[0] in ('str', 'cstr'):
        c = d.made(n)
        if c == 3:
            return None
        b = tuple(d.ivar('%s#%d' % (tag, k + 1 + i), 8) for i in range(c))
        if s[0] == 'cstr':
            out = []
            for x in b:
                if d.decide(d.eq(x, 0)):
                    break
                out.append(x)
            b = tuple(out)
        return b
    raise AssertionError(s)


def valid_utf8(d, b):
    """condition, strings of at most two bytes"""
    if b is None:
        return True
    asc = d.and_(*[d.ltu(x, 128) for x in b])
    if len(b) == 2:
        two = d.and_(d.not_(d.ltu(b[0], 0xc2)), d.ltu(b[0], 0xe0), d.not_(d.ltu(b[1], 0x80)), d.ltu(b[1], 0xc0))
        return d.or_(asc, two)
    return asc


def check_value(d, p, o, v, what):
    """python object o must be the value v of the C++ type"""
    s, k = p.sem, d.kind(o)
    if s[0] == 'int':
        d.require(k == 'int', '%s is not an integer but %s' % (what, k))
        d.require(d.eq(d.ival(o), v), '%s is not the C++ value' % what)
    elif s[0] == 'bool':
        d.require(k == 'bool', '%s is not a bool but %s' % (what, k))
        d.require(d.eq(d.ival(o), v), '%s is not the C++ value' % what)
    elif s[0] in ('float', 'double'):
        d.require(k == 'float', '%s is not a float but %s' % (what, k))
        d.require(d.eq(d.dval(o), v), '%s is not the C++ value' % what)
    elif s[0] == 'char':
        d.require(k in ('bytes', 'str'), '%s is not a character but %s' % (what, k))
        d.require(d.eq(d.sval(o), v), '%s is not the C++ value' % what)
    else:
        if v is None:
            d.require(k == 'none', '%s is not None for a null string' % what)
            return
        d.require(k == 'str', '%s is not a string but %s' % (what, k))
        d.require(d.eq(d.sval(o), v), '%s is not the C++ text' % what)


def make_arg(d, p, name, first):
    if p.n:
        n = d.choose(name + '.len', 4)
        if n == 3:
            return d.arg(name, ['int'])
        items = [d.arg('%s.%d' % (name, i), ['float' if p.base == 'float' else 'int', 'int' if p.base == 'float' else 'float', 'str1']) for i in range(n + 1)]
        return d.list(items)
    ks = KINDS[p.sem[0]]
    return d.arg(name, ks if first else [k for k in ks if k != 'none'])


def accepts_param(d, p, o):
    """(status, [values])"""
    if not p.n:
        s, v = accepts(d, p, o)
        return s, [v]
    if d.kind(o) != 'list':
        return NEVER, []
    its = d.items(o)
    if len(its) != p.n:
        return NEVER, []
    st, vals = MUST, []
    for i in its:
        k = d.kind(i)
        if k == 'str' or p.sem[0] == 'int' and k == 'float':
            return NEVER, []
        if p.sem[0] == 'float' and k != 'float':
            st = MAY
            vals.append(None)
            continue
        s, v = accepts(d, p, i)
        if s == NEVER:
            return NEVER, []
        if s == MAY:
            st = MAY
        vals.append(v)
    return st, vals


def target(d, f):
    """the callable; the instance of a method is the first object that the library makes"""
    if not f.cls:
        return d.getattr(d.module(), f.pyname)
    k = d.getattr(d.module(), f.cls)
    if f.ctor:
        return k
    if f.static:
        return d.getattr(k, f.pyname)
    o = d.call(k, ())
    d.require(o is not None, 'the default constructor fails')
    d.events()
    return d.getattr(o, f.pyname)


class Call(object):
    tags = ('P07',)

    def __init__(self, f, mode):
        self.f, self.mode = f, mode
        self.name = '%s/%s' % (f.name, mode)
        self.tags = f.tags or ('P07',)

    def run(self, d):
        f = self.f
        fn = target(d, f)
        ins = [p for p in f.params if p.is_in()]
        mode = self.mode
        take = list(ins)
        if mode == 'omit':
            take = [p for p in ins if p.default is None]
        elif mode == 'few':
            take = [p for p in ins if p.default is None][:-1]
        args = [(p, make_arg(d, p, p.name, i == 0)) for i, p in enumerate(take)]
        pos, kw = [o for p, o in args], {}
        if mode == 'kw':
            pos, kw = [], dict((p.name, o) for p, o in args)
        elif mode == 'mixed':
            pos, kw = pos[:1], dict((p.name, o) for p, o in args[1:])
        elif mode == 'extra':
            pos.append(d.none())
        elif mode == 'badkw':
            kw = {'nosuch': d.none()}
        elif mode == 'twice':
            kw = {take[0].name: d.none()}
        r = d.call(fn, pos, kw)
        self.judge(d, r, args, ins, mode)

    def judge(self, d, r, args, ins, mode):
        f = self.f
        evs = d.events()
        x = d.xname
        d.rec.append([x if r is None else 'ok', len(evs)])
        status, vals = MUST, []
        if mode in ('few', 'extra', 'badkw', 'twice'):
            status = NEVER
        else:
            got = dict((p.name, o) for p, o in args)
            for p in ins:
                if p.name not in got:
                    vals.append(default(d, p))
                    continue
                s, v = accepts_param(d, p, got[p.name])
                if s == NEVER:
                    status = NEVER
                    break
                if s == MAY:
                    status = MAY
                vals.extend(v)
        if status == NEVER:
            d.require(r is not None or not evs, 'the wrapped function runs although the conversion of an argument failed', 'call')
            d.require(r is None, 'a call with unacceptable arguments succeeds')
            d.require(not evs, 'the wrapped function runs although an argument is unacceptable')
            return None
        if status == MAY and r is None and not evs:
            return None
        d.require(len(evs) == 1, 'the wrapped function runs %d times for one call with acceptable arguments (%s)' % (len(evs), x))
        name, gil, logged = evs[0]
        d.require(name == f.name, 'the wrong function runs: %s' % name)
        check_gil(d, f, gil)
        vals = self_id(f) + vals
        d.require(len(logged) == len(vals), 'wrong number of values')
        for i, (a, b) in enumerate(zip(logged, vals)):
            if b is None and status == MAY:
                continue
            d.require(d.eq(a, b), 'argument value %d seen by the wrapped function differs from the value passed' % (i + 1))
            d.rec.append('obj' if isinstance(a, tuple) and a and isinstance(a[0], str) else a)
        return result(d, f, r, args)


def self_id(f):
    return [1] if f.cls and not f.ctor and not f.static else []


def check_gil(d, f, gil):
    if f.kw.get('unblock'):
        d.require(not gil, 'the wrapped function runs with the interpreter lock held although it should be released', 'gil')
    else:
        d.require(gil, 'the wrapped function runs without the interpreter lock', 'gil')


def check_exc(d, f, r, k):
    """the k-th possible exception was thrown"""
    (py, has_msg), msg = gen.expected_exc(f, k)
    d.require(r is None, 'a call whose C++ function throws succeeds')
    t = d.builtin(py) if py == 'ValueError' else d.getattr(d.module(), py)
    d.require(d.exc_type_is(t), 'the C++ exception becomes %s instead of %s' % (d.xname, py))
    if has_msg:
        d.require(d.exc_message() == msg, 'the exception carries the message %r instead of %r' % (d.exc_message(), msg))


def result(d, f, r, args):
    if f.throw:
        k = d.made(f.name + '.throw#0')
        if k:
            return check_exc(d, f, r, k)
    if f.ctor:
        d.require(r is not None, 'constructing with acceptable arguments fails (%s)' % d.xname)
        d.require(d.type_is(r, d.getattr(d.module(), f.cls)), 'the constructor makes an object of another type')
        return
    outs = []
    if f.ret == 'PyObject*':
        outs.append((None, None))
    elif f.ret != 'void':
        outs.append((f.rets, f.name + '.r'))
    nv = {}
    for p in f.params:
        if p.is_out():
            outs.append((p, '%s.%s' % (f.name, p.name)))
    exp = [None if p is None else [libval(d, p, t, i) for i in range(p.n)] if p.n else libval(d, p, t) for p, t in outs]
    if r is None:
        bad = [d.not_(valid_utf8(d, v)) for (p, t), v in zip(outs, exp) if p is not None and p.sem[0] in ('str', 'cstr')]
        d.require(d.or_(*bad), 'a call with acceptable arguments fails (%s)' % d.xname)
        return
    if not outs:
        d.require(d.kind(r) == 'none', 'the result of a void function is not None')
        return
    its = [r]
    if len(outs) > 1:
        d.require(d.kind(r) == 'tuple' and len(d.items(r)) == len(outs), 'the result does not have %d parts' % len(outs))
        its = d.items(r)
    for i, ((p, t), o, v) in enumerate(zip(outs, its, exp)):
        what = 'result %d' % (i + 1) if len(outs) > 1 else 'the result'
        if p is None:
            d.require(d.is_(o, args[0][1]), '%s is not the object returned by the C++ function' % what)
        elif p.n:
            d.require(d.kind(o) == 'list' and len(d.items(o)) == p.n, '%s is not a list of %d' % (what, p.n))
            for x, y in zip(d.items(o), v):
                check_value(d, p, x, y, what)
        else:
            check_value(d, p, o, v, what)


class OvCall(object):
    """call of an overloaded name: the first overload that accepts the arguments runs, and only that one"""
    tags = ('P11',)

    def __init__(self, fs, n, kw=()):
        self.fs, self.n, self.kw = fs, n, kw
        self.name = '%s/%d%s' % (fs[0].pyname if not fs[0].cls else fs[0].cls + '.' + fs[0].pyname, n, ''.join('+' + k for k in kw))

    def run(self, d):
        fs = self.fs
        fn = target(d, fs[0])
        kinds = []
        for f in fs:
            for p in f.params:
                if p.is_in():
                    kinds += [k for k in KINDS[p.sem[0]] if k not in kinds]
        if self.n + len(self.kw) > 1:
            kinds = [k for k in kinds if k != 'none'] if self.n + len(self.kw) == 2 else [k for k in kinds if k in ('int', 'float', 'str1')]
        pos = [d.arg('a%d' % i, kinds) for i in range(self.n)]
        kw = dict((k, d.arg('k_' + k, kinds)) for k in self.kw)
        r = d.call(fn, pos, kw)
        evs = d.events()
        d.rec.append([d.xname if r is None else 'ok', [e[0] for e in evs]])
        d.require(len(evs) < 2, 'more than one overload runs')
        for f in fs:
            st, args, vals = self.fits(d, f, pos, kw)
            if st == NEVER or (st == MAY and (not evs or evs[0][0] != f.name)):
                continue
            d.require(bool(evs), 'no overload runs although one accepts the arguments (%s)' % d.xname)
            d.require(evs[0][0] == f.name, 'overload %s runs although %s comes first' % (evs[0][0], f.name))
            check_gil(d, f, evs[0][1])
            vals = self_id(f) + vals
            logged = evs[0][2]
            d.require(len(logged) == len(vals), 'wrong number of values')
            for i, (a, b) in enumerate(zip(logged, vals)):
                d.require(d.eq(a, b), 'argument value %d seen by the overload differs from the value passed' % (i + 1))
            return result(d, f, r, args)
        d.require(not evs, 'overload %s runs although it does not accept the arguments' % (evs and evs[0][0]))
        d.require(r is None, 'a call that no overload accepts succeeds')
        d.require(d.exc_is('TypeError'), 'a call that no overload accepts raises %s' % d.xname)
        d.require(d.exc_reasons() == len(fs), 'the TypeError does not carry one reason for each of the %d overloads' % len(fs))

    def fits(self, d, f, pos, kw):
        ins = [p for p in f.params if p.is_in()]
        if len(pos) > len(ins):
            return NEVER, None, None
        got = dict(zip([p.name for p in ins], pos))
        for k, v in kw.items():
            if k in got or k not in [p.name for p in ins]:
                return NEVER, None, None
            got[k] = v
        st, args, vals = MUST, [], []
        for p in ins:
            if p.name not in got:
                if p.default is None:
                    return NEVER, None, None
                vals.append(default(d, p))
                continue
            s, v = accepts_param(d, p, got[p.name])
            if s == NEVER:
                return NEVER, None, None
            if s == MAY:
                st = MAY
            vals.extend(v)
            args.append((p, got[p.name]))
        return st, args, vals


def ov_scenarios(funcs):
    sets = {}
    for f in funcs:
        if f.kw.get('ov'):
            sets.setdefault((f.cls, f.pyname if not f.ctor else ''), []).append(f)
    out = []
    for k in sorted(sets, key=str):
        fs = sets[k]
        most = max(len([p for p in f.params if p.is_in()]) for f in fs)
        for n in range(most + 2):
            out.append(OvCall(fs, n))
        names = sorted(set(p.name for f in fs for p in f.params if p.is_in()))
        for x in names:
            out.append(OvCall(fs, 0, (x,)))
            if most > 1:
                out.append(OvCall(fs, 1, (x,)))
    return out


def scenarios(funcs, cls=Call, all_modes=False):
    out = []
    for f in funcs:
        if f.kw.get('ov'):
            continue
        ins = [p for p in f.params if p.is_in()]
        opt = [p for p in ins if p.default is not None]
        out.append(cls(f, 'pos'))
        if ins:
            out.append(cls(f, 'kw'))
            out.append(cls(f, 'extra'))
            if len(ins) > 1:
                out.append(cls(f, 'mixed'))
            if len(opt) < len(ins):
                out.append(cls(f, 'few'))
            if all_modes or f.name[0] in 'cv':
                out.append(cls(f, 'badkw'))
                out.append(cls(f, 'twice'))
        if opt:
            out.append(cls(f, 'omit'))
    return out
