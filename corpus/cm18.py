"""corpus module 18: shared pointers (std and boost) that cross virtual methods, containers and PyObject* in virtual methods, Glib::ustring,
functions that create instances, deprecated spellings of memory policies, options of re-wrapped methods and constructors"""
import feat
from feat import Ft, Sc, attr, num, ran, silent, ok, fails, isint, res, new, field, ident

FTS = []
# object with a reference count that starts at one
OBJ_ = '''#define OBJ_(N) int v; int id; static int live; \\
  N(int x) : n(1), v(x), id(vh_id()) { live++; } N(const N &o) : n(1), v(o.v), id(vh_id()) { live++; } ~N() { v = -77; live--; } int ident() const { return id; }
'''
SCENARIOS = []


def sc(name, *tags, **kw):
    def deco(fn):
        SCENARIOS.append(Sc(name, fn, tags, **kw))
        return fn
    return deco


def base(k, cons=True):
    from pybindgen import param
    if cons:
        k.add_constructor([param('int', 'x')])
    k.add_instance_attribute('v', 'int')
    k.add_method('ident', 'int', [], is_const=True)
    return k


# options of wrappers that are generated a second time for another class --------------------------------
def _gen(m, made):
    from pybindgen import param
    e = [made['Err']]
    a = base(m.add_class('RA'))
    a.add_method('f', 'int', [param('int', 'k')], throw=e)
    b = m.add_class('RB')
    b.add_constructor([])
    b.add_method('g', 'int', [param('int', 'k')], throw=e)
    b.add_method('slow', 'int', [param('int', 'k')], unblock_threads=True)
    b.add_method('both', 'int', [param('int', 'k')], unblock_threads=True, throw=e)
    b.add_method('st', 'int', [param('int', 'k')], is_static=True, throw=e)
    c = m.add_class('RM', parent=[a, b])
    c.add_constructor([param('int', 'x')])
    h = m.add_class('RC')
    h.add_constructor([], throw=e, unblock_threads=True)
    h.add_constructor([param('const RC&', 'o')], unblock_threads=True)
    h.add_instance_attribute('v', 'int')
    h.add_method('ident', 'int', [], is_const=True)
    s = m.add_class('RS', parent=h)
    s.inherit_default_constructors()
    m.add_class('RT', parent=s).inherit_default_constructors()


FTS.append(Ft(['RA', 'RC'], '''
struct RA { OBJ(RA, ) int f(int k); };
struct RB { int g(int k); int slow(int k); int both(int k); static int st(int k); };
struct RM : RA, RB { RM(int x) : RA(x) {} };
struct RC { int v; int id; static int live; RC(); RC(const RC &o); ~RC() { v = -77; live--; }
  int ident() const { return id; } };
struct RS : RC { };
struct RT : RS { };
''', '''
static int rthrow(const char *n, int k) { vh_ev(n); vh_i(k); if (vh_choose("thrown", 2)) throw Err(); return g(n); }
int RA::f(int k) { return rthrow("RA::f", k); } int RB::g(int k) { return rthrow("RB::g", k); } int RB::slow(int k) { vh_ev("RB::slow"); vh_i(k); return ::g("RB::slow"); }
int RB::both(int k) { return rthrow("RB::both", k); } int RB::st(int k) { return rthrow("RB::st", k); }
RC::RC() : v(g("RC.v")), id(0) { rthrow("RC0", v); id = vh_id(); live++; } RC::RC(const RC &o) : v(o.v), id(vh_id()) { vh_ev("RCc"); vh_i(o.v); live++; }
''', _gen))


def _rewrapped(d, n, cls, unblocked):
    k, ko = num(d, 'k')
    o, v = new(d, 'RM')
    r = d.callm(o, n, ko)
    evs = d.events()
    d.require(len(evs) == 1 and evs[0][0] == '%s::%s' % (cls, n), '%s does not run once' % n)
    d.require(evs[0][1] != unblocked, '%s runs with%s the interpreter lock' % (n, 'out' if not unblocked else ''), 'gil')
    d.require(d.eq(evs[0][2][0], k), 'another value arrives')
    if n != 'slow' and d.made('thrown#0') == 1:
        d.require(r is None and d.exc_type_is(attr(d, 'Err')), 'the exception of %s does not arrive' % n)
    else:
        isint(d, r, res(d, '%s::%s' % (cls, n)))


for _n, _c, _u in (('f', 'RA', False), ('g', 'RB', False), ('slow', 'RB', True), ('both', 'RB', True), ('st', 'RB', False)):
    SCENARIOS.append(Sc('rewrapped/' + _n, lambda d, a=(_n, _c, _u): _rewrapped(d, *a), ('P12', 'P13', 'P20')))


@sc('inherited-constructor-options', 'P12', 'P13', 'P20')
def _(d):
    c = ('RC', 'RS', 'RT')[d.choose('c', 3)]
    r = d.call(attr(d, c), [])
    evs = d.events()
    d.require(len(evs) == 1 and evs[0][0] == 'RC0' and d.eq(evs[0][2][0], res(d, 'RC.v')), 'another constructor runs')
    d.require(not evs[0][1], 'the constructor runs with the interpreter lock', 'gil')
    if d.made('thrown#0') == 1:
        d.require(r is None and d.exc_type_is(attr(d, 'Err')), 'the exception of the constructor does not arrive')
        return
    ok(d, r)
    o = ok(d, d.call(attr(d, c), [r]))
    evs = d.events()
    d.require(len(evs) == 1 and evs[0][0] == 'RCc' and d.eq(evs[0][2][0], res(d, 'RC.v')), 'another constructor runs')
    d.require(not evs[0][1], 'the constructor runs with the interpreter lock', 'gil')
    d.require(d.eq(field(d, o), res(d, 'RC.v')), 'the copy has another value')
    d.require(d.not_(d.eq(ident(d, o), ident(d, r))), 'the copy is the same object')


# the interpreter lock around constructors and protected members of classes with virtual methods -----------------------------
def _gen(m, made):
    from pybindgen import param
    e = [made['Err']]
    a = m.add_class('UT', allow_subclassing=True)
    a.add_constructor([param('int', 'x')], unblock_threads=True, throw=e)
    base(a, False)
    a.add_method('w', 'int', [param('int', 'k')], is_virtual=True, unblock_threads=True)
    a.add_method('pr', 'int', [param('int', 'k')], visibility='protected', unblock_threads=True, throw=e)
    a.add_method('pv', 'int', [param('int', 'k')], visibility='protected', is_virtual=True, unblock_threads=True)
    b = m.add_class('UP', allow_subclassing=True)
    b.add_constructor([param('int', 'x'), param('const char*', 's')], visibility='protected', unblock_threads=True)
    base(b, False)
    b.add_method('w', 'int', [param('int', 'k')], is_virtual=True)
    c = m.add_class('UA', allow_subclassing=True)
    c.add_constructor([param('int', 'x'), param('std::string', 's')], unblock_threads=True)
    base(c, False)
    c.add_method('w', 'int', [param('int', 'k')], is_virtual=True, is_pure_virtual=True)
    for n in ('UT', 'UP', 'UA'):
        m.add_function(n + '_w', 'int', [param(n + '&', 'x'), param('int', 'k')], unblock_threads=True)
    f = m.add_class('UF')
    f.add_function_as_constructor('UF_make', 'UF*', [param('int', 'x')], unblock_threads=True)
    base(f, False)
    d = m.add_class('UD', parent=a)
    d.add_constructor([param('int', 'x')], throw=e)
    d.add_method('z', 'int', [param('int', 'k')], is_virtual=True)


FTS.append(Ft(['UT', 'UP', 'UA', 'UF'], '''
struct UT { int v; int id; static int live; UT(int x); UT(const UT &o) : v(o.v), id(vh_id()) { live++; } virtual ~UT() { v = -77; live--; } int ident() const { return id; }
  virtual int w(int k) { vh_ev("UT::w"); vh_i(k); return g("UT::w"); }
protected: int pr(int k); virtual int pv(int k) { vh_ev("UT::pv"); vh_i(k); return g("UT::pv"); } };
struct UP { int v; int id; static int live; virtual ~UP() { v = -77; live--; } int ident() const { return id; }
  virtual int w(int k) { vh_ev("UP::w"); vh_i(k); return g("UP::w"); }
protected: UP(int x, const char *s) : v(x), id(vh_id()) { vh_ev("UP"); vh_i(x); live++; } private: UP(const UP &); };
struct UA { int v; int id; static int live; UA(int x, std::string s) : v(x), id(vh_id()) { vh_ev("UA"); vh_i(x); live++; } virtual ~UA() { v = -77; live--; }
  int ident() const { return id; } virtual int w(int k) = 0; private: UA(const UA &); };
int UT_w(UT &x, int k); int UP_w(UP &x, int k); int UA_w(UA &x, int k);
struct UF { OBJ(UF, ) };
UF *UF_make(int x);
struct UD : UT { UD(int x) : UT(x) {} virtual int z(int k) { vh_ev("UD::z"); vh_i(k); return g("UD::z"); } };
''', '''
UT::UT(int x) : v(x), id(0) { rthrow("UT", x); id = vh_id(); live++; } int UT::pr(int k) { return rthrow("UT::pr", k); }
int UT_w(UT &x, int k) { vh_ev("UT_w"); return x.w(k); } int UP_w(UP &x, int k) { vh_ev("UP_w"); return x.w(k); } int UA_w(UA &x, int k) { vh_ev("UA_w"); return x.w(k); }
UF *UF_make(int x) { vh_ev("UF_make"); vh_i(x); return new UF(x); }
''', _gen))


def unlocked(d, name, vals, what):
    evs = d.events()
    d.require(len(evs) == 1 and evs[0][0] == name, '%s: ran %s' % (what, [e[0] for e in evs]))
    d.require(not evs[0][1], '%s runs with the interpreter lock' % what, 'gil')
    for x, y in zip(evs[0][2], vals):
        d.require(d.eq(x, y), '%s: another value arrives' % what)


def _ut(d, sub):
    x, xo = num(d, 'x')
    c = attr(d, 'UT')
    k, ko = num(d, 'k')
    y, yo = num(d, 'y')

    def w(me, a):
        d.require(d.eq(d.ival(a), k), 'the override gets another value')
        return d.int(y)
    if sub:
        c = d.subclass(c, 'Sub', {'w': w} if sub == 2 else {})
    r = d.call(c, [xo])
    unlocked(d, 'UT', [x], 'the constructor')
    if d.made('thrown#0') == 1:
        return d.require(r is None and d.exc_type_is(attr(d, 'Err')), 'the exception of the constructor does not arrive')
    ok(d, r)
    how = d.choose('how', 3)
    if how == 0:
        q = d.callm(d.module(), 'UT_w', r, ko)
        evs = d.events()
        if sub == 2:
            d.require([e[0] for e in evs] == ['UT_w'], 'ran ' + str([e[0] for e in evs]))
        else:
            d.require([e[0] for e in evs] == ['UT_w', 'UT::w'], 'ran ' + str([e[0] for e in evs]))
        d.require(not evs[0][1], 'the function runs with the interpreter lock', 'gil')
        return isint(d, q, y if sub == 2 else res(d, 'UT::w'))
    n = ('', 'pr', 'pv')[how]
    q = d.callm(r, n, ko)
    if not sub:
        fails(d, q, 'TypeError', 'a protected method of an instance of the C++ class')
        return silent(d)
    unlocked(d, 'UT::' + n, [k], 'the protected method')
    if n == 'pr' and d.made('thrown#1') == 1:
        return d.require(q is None and d.exc_type_is(attr(d, 'Err')), 'the exception of the protected method does not arrive')
    isint(d, q, res(d, 'UT::' + n))
    fails(d, d.callm(r, n, d.none()), 'TypeError')
    silent(d)


for _i, _n in enumerate(('plain', 'sub', 'override')):
    SCENARIOS.append(Sc('unlocked/' + _n, lambda d, i=_i: _ut(d, i), ('P12', 'P13', 'P15')))


@sc('unlocked/inherited', 'P12', 'P15')
def _(d):
    x, xo = num(d, 'x')
    k, ko = num(d, 'k')
    c = attr(d, 'UD')
    sub = d.choose('sub', 2)
    if sub:
        c = d.subclass(c, 'Sub', {})
    r = d.call(c, [xo])
    ran(d, 'UT', [x], 'the constructor')
    if r is None:
        return
    n = ('w', 'pv')[d.choose('n', 2)]
    q = d.callm(r, n, ko)
    if n != 'w' and not sub:
        return fails(d, q, 'TypeError')
    unlocked(d, 'UT::' + n, [k], 'the inherited method')
    isint(d, q, res(d, 'UT::' + n))


@sc('unlocked/not-constructible', 'P12', 'P09', 'P10')
def _(d):
    n = ('UP', 'UA')[d.choose('c', 2)]
    x, xo = num(d, 'x')
    k, ko = num(d, 'k')
    y, yo = num(d, 'y')

    def w(me, a):
        d.require(d.eq(d.ival(a), k), 'the override gets another value')
        return d.int(y)
    fails(d, d.call(attr(d, n), [xo, d.str('s')]), 'TypeError', 'the constructor')
    silent(d)
    o = ok(d, d.call(d.subclass(attr(d, n), 'Sub', {'w': w}), [xo, d.str('s')]))
    unlocked(d, n, [x], 'the constructor')
    r = d.callm(d.module(), n + '_w', o, ko)
    unlocked(d, n + '_w', [], 'the function')
    isint(d, r, y)


@sc('unlocked/function-as-constructor', 'P12', 'P10')
def _(d):
    x, xo = num(d, 'x')
    o = ok(d, d.call(attr(d, 'UF'), [xo]))
    unlocked(d, 'UF_make', [x], 'the constructor')
    d.require(d.eq(field(d, o), x), 'the object has another value')


# shared pointers across virtual methods -----------------------------------------------------------------------------
def _gen(m, made):
    from pybindgen import param, retval
    from pybindgen.typehandlers import smart_ptr
    m.add_include('<memory>')
    for n, p, pol in (('SP', 'std', smart_ptr.StdSharedPtr), ('BP', 'boost', smart_ptr.BoostSharedPtr)):
        k = base(m.add_class(n, memory_policy=pol('::' + n)))
        t = '%s::shared_ptr< ::%s >' % (p, n)
        m.add_function(n + '_make', t, [param('int', 'x')])
        m.add_function(n + '_keep', None, [param(t, 'p')])
        m.add_function(n + '_kept', t, [])
        m.add_function(n + '_drop', None, [])
    v = m.add_class('SV', allow_subclassing=True)
    v.add_constructor([])
    t = 'std::shared_ptr< ::SP >'
    v.add_method('take', 'int', [param(t, 'p')], is_virtual=True)
    v.add_method('give', t, [param('int', 'k')], is_virtual=True)
    v.add_method('swap', t, [param(t, 'p'), param('int', 'k')], is_virtual=True)
    for n in ('take', 'give', 'swap'):
        m.add_function('SV_' + n, 'int', [param('SV&', 'x'), param('int', 'k')])


FTS.append(Ft(['SP', 'BP', 'SV'], r"""
#include <memory>
namespace boost { using std::shared_ptr; }
struct SP { OBJ(SP, ) }; struct BP { OBJ(BP, ) };
std::shared_ptr<SP> SP_make(int x); void SP_keep(std::shared_ptr<SP> p); std::shared_ptr<SP> SP_kept(); void SP_drop();
boost::shared_ptr<BP> BP_make(int x); void BP_keep(boost::shared_ptr<BP> p); boost::shared_ptr<BP> BP_kept(); void BP_drop();
struct SV { static int live; SV() { live++; } SV(const SV &) { live++; } virtual ~SV() { live--; }
  virtual int take(std::shared_ptr<SP> p); virtual std::shared_ptr<SP> give(int k); virtual std::shared_ptr<SP> swap(std::shared_ptr<SP> p, int k); };
int SV_take(SV &x, int k); int SV_give(SV &x, int k); int SV_swap(SV &x, int k);
""", r"""
static std::shared_ptr<SP> *sp_kept; static boost::shared_ptr<BP> *bp_kept;
std::shared_ptr<SP> SP_make(int x) { std::shared_ptr<SP> p(new SP(x)); vh_ev("SP_make"); vh_i(p->id); return p; }
void SP_keep(std::shared_ptr<SP> p) { vh_ev("SP_keep"); vh_i(p->id); vh_i(p->v); delete sp_kept; sp_kept = new std::shared_ptr<SP>(p); }
std::shared_ptr<SP> SP_kept() { return sp_kept ? *sp_kept : std::shared_ptr<SP>(); } void SP_drop() { delete sp_kept; sp_kept = 0; }
boost::shared_ptr<BP> BP_make(int x) { boost::shared_ptr<BP> p(new BP(x)); vh_ev("BP_make"); vh_i(p->id); return p; }
void BP_keep(boost::shared_ptr<BP> p) { vh_ev("BP_keep"); vh_i(p->id); vh_i(p->v); delete bp_kept; bp_kept = new boost::shared_ptr<BP>(p); }
boost::shared_ptr<BP> BP_kept() { return bp_kept ? *bp_kept : boost::shared_ptr<BP>(); } void BP_drop() { delete bp_kept; bp_kept = 0; }
static int spl(const char *n, std::shared_ptr<SP> p) { vh_ev(n); if (!p) { vh_i(-1); return -1; } vh_i(p->id); vh_i(p->v); return p->v; }
int SV::take(std::shared_ptr<SP> p) { spl("SV::take", p); return ::g("SV::take"); }
std::shared_ptr<SP> SV::give(int k) { vh_ev("SV::give"); vh_i(k); return std::shared_ptr<SP>(new SP(k)); }
std::shared_ptr<SP> SV::swap(std::shared_ptr<SP> p, int k) { spl("SV::swap", p); return p; }
int SV_take(SV &x, int k) { std::shared_ptr<SP> p; if (vh_choose("null", 2) == 0) p = std::shared_ptr<SP>(new SP(k)); int r = x.take(p); spl("SV_take", p); return r; }
int SV_give(SV &x, int k) { std::shared_ptr<SP> p = x.give(k); return spl("SV_give", p); }
int SV_swap(SV &x, int k) { std::shared_ptr<SP> p(new SP(k)); std::shared_ptr<SP> q = x.swap(p, k); p = std::shared_ptr<SP>(); return spl("SV_swap", q); }
""", _gen))


def _spol(d, n):
    v, vo = num(d, 'v')
    if d.choose('made', 2):
        o = ok(d, d.callm(d.module(), n + '_make', vo))
        evs = d.events()
        d.require(len(evs) == 1 and evs[0][0] == n + '_make', 'the function does not run once')
        d.require(d.eq(ident(d, o), evs[0][2][0]), 'another object is returned')
    else:
        o = ok(d, d.call(attr(d, n), [vo]))
    d.require(d.type_is(o, attr(d, n)) and d.eq(field(d, o), v), 'the object has another value')
    i = ident(d, o)
    ok(d, d.callm(d.module(), n + '_keep', o))
    ran(d, n + '_keep', [i, v])
    if d.choose('drop', 2):
        d.drop(o)
        o = None
    w, wo = num(d, 'w')
    if o is not None:
        d.require(d.setattr(o, 'v', wo), 'the attribute cannot be set')
    q = ok(d, d.callm(d.module(), n + '_kept'))
    d.require(d.eq(ident(d, q), i), 'another object comes back')
    d.require(d.eq(field(d, q), w if o is not None else v), 'the object has another value')
    ok(d, d.callm(d.module(), n + '_drop'))
    d.require(d.eq(field(d, q), w if o is not None else v), 'the object has another value after C++ let it go')
    for bad in (d.int(1), d.str('x')):
        fails(d, d.callm(d.module(), n + '_keep', bad), 'TypeError')
    e = ok(d, d.callm(d.module(), n + '_kept'))
    d.require(d.kind(e) == 'none', 'an empty pointer is not None')


for _n in ('SP', 'BP'):
    SCENARIOS.append(Sc('shared/' + _n, lambda d, n=_n: _spol(d, n), ('P10', 'P08')))


@sc('shared/virtual', 'P15', 'P10', 'P08', weight=3)
def _(d):
    n = ('take', 'give', 'swap')[d.choose('n', 3)]
    how = d.choose('how', 4)        # no override, override ok, raises, unusable
    k, ko = num(d, 'k')
    y, yo = num(d, 'y')
    st = {'keep': None, 'n': 0}
    null = [False]

    def see(a):
        null[0] = n == 'take' and d.made('null#0') == 1
        if null[0]:
            d.require(d.kind(a) == 'none', 'an empty pointer is not None in the override')
        else:
            d.require(d.type_is(a, attr(d, 'SP')) and d.eq(field(d, a), k), 'the override gets another object')
            st['id'] = ident(d, a)
        if d.choose('keep', 2):
            st['keep'] = d.keep(a)

    def result(v):
        if how == 2:
            return d.throw()
        if how == 3:
            return d.str('no')
        return v

    def take(me, p):
        st['n'] += 1
        see(p)
        return result(d.int(y) if how == 1 else None)

    def give(me, a):
        st['n'] += 1
        d.require(d.eq(d.ival(a), k), 'the override gets another value')
        o = ok(d, d.call(attr(d, 'SP'), [yo]))
        st['id'] = ident(d, o)
        return result(o)

    def swap(me, p, a):
        st['n'] += 1
        see(p)
        d.require(d.eq(d.ival(a), k), 'the override gets another value')
        return result(p)
    t = d.subclass(attr(d, 'SV'), 'Sub', {n: dict(take=take, give=give, swap=swap)[n]} if how else {})
    o = ok(d, d.call(t, []))
    d.events()
    r = ok(d, d.callm(d.module(), 'SV_' + n, o, ko))
    evs = d.events()
    last = evs[-1]
    d.require(st['n'] == (1 if how else 0), 'the override runs %d times' % st['n'])
    d.require([e[0] for e in evs] == (['SV_' + n] if how == 1 else ['SV::' + n, 'SV_' + n]), 'ran %s' % [e[0] for e in evs])
    if how > 1:
        d.require(d.reported(), 'the failure is not reported')
    if n == 'take':
        isint(d, r, y if how == 1 else res(d, 'SV::take'))
    elif n == 'give':
        d.require(d.eq(last[2][1], y if how == 1 else k), 'another object is returned')
        if how == 1:
            d.require(d.eq(last[2][0], st['id']), 'another object is returned')
    else:
        d.require(d.eq(last[2][1], k), 'another object is returned')
    if st['keep'] is not None and not null[0]:
        d.require(d.eq(field(d, st['keep']), k) and d.eq(ident(d, st['keep']), st['id']), 'the kept object changed')


# containers, Python objects and strings in virtual methods -------------------------------------------------------
def _gen(m, made):
    from pybindgen import param, retval
    m.add_include('<vector>')
    m.add_include('<map>')
    m.add_container('std::vector<int>', 'int', 'vector')
    m.add_container('std::map<int, int>', ('int', 'int'), 'map')
    k = m.add_class('CV', allow_subclassing=True)
    k.add_constructor([])
    V = 'std::vector<int>'
    k.add_method('val', 'int', [param(V, 'x')], is_virtual=True)
    k.add_method('cref', 'int', [param('const std::vector<int>&', 'x')], is_virtual=True)
    k.add_method('out', None, [param(V + '&', 'x', direction=2)], is_virtual=True)
    k.add_method('inout', 'int', [param(V + '&', 'x', direction=3), param('int', 'k')], is_virtual=True)
    k.add_method('give', V, [param('int', 'k')], is_virtual=True)
    k.add_method('mp', 'std::map<int, int>', [param('std::map<int, int>', 'x')], is_virtual=True)
    for n in ('val', 'cref', 'out', 'inout', 'give', 'mp'):
        m.add_function('CV_' + n, None, [param('CV&', 'x'), param('int', 'k')])


FTS.append(Ft(['CV'], r"""
#include <vector>
#include <map>
typedef std::vector<int> VI; typedef std::map<int, int> MI;
struct CV { static int live; CV() { live++; } CV(const CV &) { live++; } virtual ~CV() { live--; }
  virtual int val(VI x); virtual int cref(const VI &x); virtual void out(VI &x); virtual int inout(VI &x, int k); virtual VI give(int k); virtual MI mp(MI x); };
void CV_val(CV &, int k); void CV_cref(CV &, int k); void CV_out(CV &, int k); void CV_inout(CV &, int k); void CV_give(CV &, int k); void CV_mp(CV &, int k);
""", r"""
static void lv(const VI &x) { vh_i(x.size()); for (VI::const_iterator i = x.begin(); i != x.end(); ++i) vh_i(*i); }
static void lm(const MI &x) { vh_i(x.size()); for (MI::const_iterator i = x.begin(); i != x.end(); ++i) { vh_i(i->first); vh_i(i->second); } }
static VI mkv(int k) { VI x; for (int n = vh_choose("len", 3); n > 0; n--) x.push_back(k ^ n); return x; }
int CV::val(VI x) { vh_ev("CV::val"); lv(x); return ::g("CV::val"); } int CV::cref(const VI &x) { vh_ev("CV::cref"); lv(x); return ::g("CV::cref"); }
void CV::out(VI &x) { vh_ev("CV::out"); x.clear(); x.push_back(77); } int CV::inout(VI &x, int k) { vh_ev("CV::inout"); lv(x); vh_i(k); x.push_back(78); return ::g("CV::inout"); }
VI CV::give(int k) { vh_ev("CV::give"); vh_i(k); VI r; r.push_back(k); return r; } MI CV::mp(MI x) { vh_ev("CV::mp"); lm(x); x[5] = 6; return x; }
void CV_val(CV &c, int k) { VI x = mkv(k); int r = c.val(x); vh_ev("CV_val"); lv(x); vh_i(r); } void CV_cref(CV &c, int k) { VI x = mkv(k); int r = c.cref(x); vh_ev("CV_cref"); lv(x); vh_i(r); }
void CV_out(CV &c, int k) { VI x = mkv(k); c.out(x); vh_ev("CV_out"); lv(x); } void CV_inout(CV &c, int k) { VI x = mkv(k); int r = c.inout(x, k); vh_ev("CV_inout"); lv(x); vh_i(r); }
void CV_give(CV &c, int k) { VI x = c.give(k); vh_ev("CV_give"); lv(x); } void CV_mp(CV &c, int k) { MI x; x[1] = k; x = c.mp(x); vh_ev("CV_mp"); lm(x); }
""", _gen))


def _items(d, o):
    it = ok(d, d.iter(o), 'iterating a container')
    r = []
    while True:
        x = d.next(it)
        if x is None:
            d.require(d.xname in (None, 'StopIteration'), 'the iteration fails')
            return r
        r.append(x)


@sc('container-constructor', 'P16', 'P09')
def _(d):
    mp = d.choose('map', 2)
    c = attr(d, ('Std__vector__lt__int__gt__', 'Std__map__lt__int__int__gt__')[mp])
    x, xo = num(d, 'x')
    l = d.list([d.tuple([xo, xo]) if mp else xo])
    how = d.choose('how', 8)
    if how == 0:
        o = d.call(c, [])
    elif how == 1:
        o = d.call(c, [l])
    elif how == 2:
        o = d.call(c, [], {'arg': l})
    elif how == 3:
        o = d.call(c, [ok(d, d.call(c, [l]))])
    else:
        fails(d, d.call(c, *([[l, l]], [[], {'nope': l}], [[l], {'arg': l}], [[d.none()]])[how - 4]), 'TypeError')
        return
    ok(d, o)
    xs = _items(d, o)
    d.require(len(xs) == (how > 0), 'the container has %d elements' % len(xs))
    for e in xs:
        if mp:
            e = d.items(e)[1]
        d.require(d.eq(d.ival(e), x), 'the element is another one')


def _cv(d, n, how):
    """how: no override, override ok (list or wrapped container as result), raises, unusable result, unusable element"""
    k, ko = num(d, 'k')
    ys = [num(d, 'y%d' % i) for i in range(2)]
    st = {'n': 0, 'keep': None}

    def start():
        return [d.xor(k, i) for i in range(d.made('len#0'), 0, -1)]

    def see(a, vals):
        xs = _items(d, a)
        d.require(len(xs) == len(vals), 'the override gets %d elements instead of %d' % (len(xs), len(vals)))
        for x, v in zip(xs, vals):
            d.require(d.eq(d.ival(x), v), 'the override gets another element')
        if d.choose('keep', 2):
            st['keep'] = d.keep(a), vals

    def result(make):
        if how == 2:
            return d.throw()
        if how == 3:
            return d.float(d.const_f64(1.5)) if n in ('val', 'cref') else d.int(3)
        return make()

    def seq():
        l = d.list([ys[0][1], ys[1][1] if how != 4 else d.none()])
        if d.choose('wrapped', 2) and how != 4:
            return ok(d, d.call(attr(d, 'Std__vector__lt__int__gt__'), [l]), 'making a container')
        return l

    def f(me, *a):
        st['n'] += 1
        if n in ('val', 'cref'):
            see(a[0], start())
            return result(lambda: ys[0][1])
        if n == 'out':
            d.require(len(a) <= 1, 'too many arguments')
            return result(seq)
        if n == 'inout':
            see(a[0], start())
            d.require(d.eq(d.ival(a[1]), k), 'the override gets another value')
            return result(lambda: d.tuple([ys[0][1], seq()]))
        if n == 'give':
            d.require(d.eq(d.ival(a[0]), k), 'the override gets another value')
            return result(seq)
        x = _items(d, a[0])
        d.require(len(x) == 1, 'the override gets %d pairs' % len(x))
        return result(lambda: d.list([d.tuple([ys[0][1], ys[1][1] if how != 4 else d.none()])]))
    o = ok(d, d.call(d.subclass(attr(d, 'CV'), 'Sub', {n: f} if how else {}), []))
    d.events()
    ok(d, d.callm(d.module(), 'CV_' + n, o, ko))
    evs = d.events()
    d.require(st['n'] == (1 if how else 0), 'the override runs %d times' % st['n'])
    parent = how != 1 and not (how > 1 and n == 'out')
    d.require([e[0] for e in evs] == (['CV::' + n] if parent else []) + ['CV_' + n], 'ran %s' % [e[0] for e in evs])
    if how > 1:
        d.require(d.reported(), 'the failure is not reported')
    got = evs[-1][2]

    def same(vals, what):
        d.require(len(got) == len(vals), '%s has another length' % what)
        for x, v in zip(got, vals):
            d.require(d.eq(x, v), '%s has another value' % what)
    y = [v for v, h in ys]
    if n in ('val', 'cref'):
        same([len(start())] + start() + [y[0] if how == 1 else res(d, 'CV::' + n)], 'the result')
    elif n == 'out':
        if how < 2:
            same([2] + y if how else [1, 77], 'the output container')
    elif n == 'inout':
        if how == 1:
            same([2] + y + [y[0]], 'the output container')
        elif how == 0:
            same([len(start()) + 1] + start() + [78, res(d, 'CV::inout')], 'the output container')
    elif n == 'give':
        same([2] + y if how == 1 else [1, k], 'the returned container')
    elif how == 1:
        same([1] + y, 'the returned map')
    else:
        same([2, 1, k, 5, 6], 'the returned map')
    if st['keep'] is not None:
        xs = _items(d, st['keep'][0])
        d.require(len(xs) == len(st['keep'][1]), 'the kept container changed')
        for x, v in zip(xs, st['keep'][1]):
            d.require(d.eq(d.ival(x), v), 'the kept container changed')


for _n in ('val', 'cref', 'out', 'inout', 'give', 'mp'):
    for _h, _t in enumerate(('parent', 'ok', 'raises', 'unusable', 'element')):
        if _h == 4 and _n in ('val', 'cref'):
            continue
        SCENARIOS.append(Sc('container-virtual/%s/%s' % (_n, _t), lambda d, n=_n, h=_h: _cv(d, n, h), ('P15', 'P16')))


# functions that create instances, deprecated spellings of memory policies -------------------------------------------------------
def _gen(m, made):
    from pybindgen import param, retval
    import warnings

    def create(cpp_class, code_block, lvalue, parameters, construct_type_name):
        code_block.write_code('%s = mk< %s >(%s);' % (lvalue, construct_type_name, parameters))

    def post(cpp_class, code_block, lvalue, parameters, construct_type_name):
        code_block.write_code('vh_ev("post"); vh_i(%s->id);' % lvalue)

    def fill(k, n, virt):
        base(k)
        k.add_constructor([param('const %s&' % n, 'o')])
        if virt:
            k.add_method('w', 'int', [param('int', 'k')], is_virtual=True)
        m.add_function(n + '_val', n, [])
    k = m.add_class('IC')
    k.set_instance_creation_function(create)
    k.set_post_instance_creation_function(post)
    fill(k, 'IC', False)
    d = m.add_class('ID', parent=k)
    fill(d, 'ID', False)
    v = m.add_class('IV', allow_subclassing=True)
    v.set_instance_creation_function(create)
    v.set_post_instance_creation_function(post)
    fill(v, 'IV', True)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = m.add_class('DF', free_function='DF_free')
        f.add_function_as_constructor('DF_new', 'DF*', [param('int', 'x')])
        base(f, False)
        r = m.add_class('DR', incref_method='inc', decref_method='dec', peekref_method='peek')
        base(r)
        q = m.add_class('DQ', incref_function='DQ_inc', decref_function='DQ_dec')
        base(q)
    for n in ('DR', 'DQ'):
        m.add_function(n + '_keep', None, [param(n + '*', 'x', transfer_ownership=False)])
        m.add_function(n + '_kept', retval(n + '*', caller_owns_return=True), [])
        m.add_function(n + '_drop', None, [])
    m.add_function('DF_made', retval('DF*', caller_owns_return=True), [])


FTS.append(Ft(['IC', 'IV', 'DF', 'DR', 'DQ'], r"""
template <class T, class... A> T *mk(A &&... a) { T *p = new T(static_cast<A &&>(a)...); vh_ev("mk"); vh_i(p->id); return p; }
struct IC { OBJ(IC, ) }; struct ID : IC { ID(int x) : IC(x) {} }; struct IV { OBJ(IV, virtual) virtual int w(int k) { return k; } };
IC IC_val(); ID ID_val(); IV IV_val();
struct DF { OBJ(DF, ) }; DF *DF_new(int x); void DF_free(DF *x); DF *DF_made();
struct DR { int n; OBJ_(DR) void inc() { n++; } void dec() { if (--n == 0) delete this; } int peek() const { return n; } };
struct DQ { int n; OBJ_(DQ) }; void DQ_inc(DQ *x); void DQ_dec(DQ *x);
void DR_keep(DR *x); DR *DR_kept(); void DR_drop(); void DQ_keep(DQ *x); DQ *DQ_kept(); void DQ_drop();
""", r"""
IC IC_val() { return IC(g("val")); } ID ID_val() { return ID(g("val")); } IV IV_val() { return IV(g("val")); }
DF *DF_new(int x) { vh_ev("DF_new"); vh_i(x); return new DF(x); } void DF_free(DF *x) { vh_ev("DF_free"); vh_i(x->id); delete x; } DF *DF_made() { return new DF(g("val")); }
void DQ_inc(DQ *x) { x->n++; } void DQ_dec(DQ *x) { if (--x->n == 0) delete x; }
static DR *dr; static DQ *dq;
void DR_keep(DR *x) { vh_ev("keep"); vh_i(x->id); DR_drop(); x->inc(); dr = x; } DR *DR_kept() { if (dr) dr->inc(); return dr; } void DR_drop() { if (dr) dr->dec(); dr = 0; }
void DQ_keep(DQ *x) { vh_ev("keep"); vh_i(x->id); DQ_drop(); DQ_inc(x); dq = x; } DQ *DQ_kept() { if (dq) DQ_inc(dq); return dq; } void DQ_drop() { if (dq) DQ_dec(dq); dq = 0; }
""", _gen))


@sc('creation-function', 'P10', 'P07')
def _(d):
    n = ('IC', 'ID', 'IV')[d.choose('c', 3)]
    how = d.choose('how', 4)
    if how == 3 and n != 'IV':
        return
    v, vo = num(d, 'v')
    c = attr(d, n)
    if how == 3:
        c = d.subclass(c, 'Sub', {})
    o = ok(d, d.callm(d.module(), n + '_val') if how == 1 else d.call(c, [vo]))
    if how == 1:
        v = res(d, 'val')
    evs = [e for e in d.events()]
    if how == 2:
        o2 = ok(d, d.call(c, [o]))
        evs = d.events()
        d.require(d.not_(d.eq(ident(d, o2), ident(d, o))), 'the copy is the same object')
        o = o2
    i = ident(d, o)
    d.require([e[0] for e in evs if e[0] == 'mk'] == ['mk'], 'the creation function runs %d times' % len([e for e in evs if e[0] == 'mk']))
    d.require(d.eq([e for e in evs if e[0] == 'mk'][0][2][0], i), 'the creation function made another object')
    if how != 1:
        d.require([e[0] for e in evs] == ['mk', 'post'] and d.eq(evs[1][2][0], i), 'the code after the creation does not run once: %s' % [e[0] for e in evs])
    d.require(d.eq(field(d, o), v), 'the object has another value')


@sc('free-function', 'P10')
def _(d):
    v, vo = num(d, 'v')
    if d.choose('made', 2):
        o = ok(d, d.callm(d.module(), 'DF_made'))
        v = res(d, 'val')
    else:
        o = ok(d, d.call(attr(d, 'DF'), [vo]))
        ran(d, 'DF_new', [v], 'the constructor')
    d.require(d.eq(field(d, o), v), 'the object has another value')
    i = ident(d, o)
    d.drop(o)
    evs = d.events()
    d.require(len(evs) == 1 and evs[0][0] == 'DF_free' and d.eq(evs[0][2][0], i), 'the object is not freed by its function')


@sc('counted', 'P10')
def _(d):
    n = ('DR', 'DQ')[d.choose('c', 2)]
    v, vo = num(d, 'v')
    o = ok(d, d.call(attr(d, n), [vo]))
    i = ident(d, o)
    ok(d, d.callm(d.module(), n + '_keep', o))
    ran(d, 'keep', [i])
    if d.choose('drop', 2):
        d.drop(o)
        o = None
    q = ok(d, d.callm(d.module(), n + '_kept'))
    d.require(d.eq(ident(d, q), i) and d.eq(field(d, q), v), 'another object comes back')
    ok(d, d.callm(d.module(), n + '_drop'))
    d.require(d.eq(ident(d, q), i) and d.eq(field(d, q), v), 'the object changed after C++ let it go')
    if o is not None:
        d.drop(q)
        d.require(d.eq(ident(d, o), i) and d.eq(field(d, o), v), 'the object changed')
    r = ok(d, d.callm(d.module(), n + '_kept'))
    d.require(d.kind(r) == 'none', 'NULL is not None')


def header():
    return feat.header(FTS, OBJ_)


def source():
    return feat.source(FTS)


def generate(outfile):
    feat.generate('m18', FTS, outfile)
