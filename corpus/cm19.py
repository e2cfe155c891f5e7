"""corpus module 19: two modules: m19 imports classes of m19a, derives from them, and the two exchange objects.  Identity, narrowing, virtual
methods, ownership and lifetimes do not depend on which of the modules an object, a class or a function belongs to"""
import feat
from feat import Ft, Sc, attr, num, ran, silent, ok, fails, isint, res, new, field, ident

EXTRA = [('m19a', 'moda')]
CXX = 'g++'
IR_FLAGS = ['-U__clang__']
SCENARIOS = []


def sc(name, *tags, **kw):
    def deco(fn):
        SCENARIOS.append(Sc(name, fn, tags, **kw))
        return fn
    return deco


HDR = '''
struct XP { OBJ(XP, virtual) virtual int f(int k); int plain(int k); static XP *held, *seen; };
struct XA : XP { XA(int x) : XP(x) {} XA(const XA &o) : XP(o) {} virtual int f(int k); int onlya(int k); };
struct XQ : XP { XQ(int x) : XP(x) {} XQ(const XQ &o) : XP(o) {} virtual int f(int k); virtual int h(int k); int onlyq(int k); };
struct XR : XA { XR(int x) : XA(x) {} XR(const XR &o) : XA(o) {} };
struct XH : XQ { XH(int x) : XQ(x) {} XH(const XH &o) : XQ(o) {} };
struct XI : XA { XI(int x) : XA(x) {} XI(const XI &o) : XA(o) {} };
struct XT { OBJ(XT, virtual) virtual int f(int k); };
struct XV { OBJ(XV, ) XV() : v(g("XV.v")), id(vh_id()) { live++; } };
struct XC { int n; int v; int id; static int live; XC(int x) : n(1), v(x), id(vh_id()) { live++; } ~XC() { v = -77; live--; } int ident() const { return id; }
  void ref() { n++; } void unref() { if (--n == 0) delete this; } static XC *held; };
struct XW { int v; XW(int x) : v(x) {} operator XV() const { return XV(v); } };
namespace xn { struct XN { OBJ(XN, virtual) virtual int f(int k) { vh_ev("XN::f"); vh_i(k); return g("XN::f"); } }; struct XM { OBJ(XM, ) }; }
struct XD : xn::XN { XD(int x) : xn::XN(x) {} };
XP *xmake(int kind, int x); void xdrop();
int a_f(XP *p, int k); int b_f(XP *p, int k); int b_r(const XP &p, int k); int b_h(XQ *p, int k); int a_t(XT *p, int k);
XP *a_give(int kind, int x); XP *b_give(int kind, int x); void a_take(XP *p); void b_take(XP *p); XP *a_held(); XP *b_held(); void a_hold(XP *p); void b_hold(XP *p); XP *a_seen(); XP *b_seen(); void x_release();
XV b_v(XV v); int b_vp(const XV &v); XV a_v(int x); XV *b_vn(int x);
void b_keep(XC *c); XC *a_kept(); XC *b_kept(); void x_unkeep(); XC *b_fresh(int x);
int b_n(xn::XN *p, int k); xn::XN *b_nn(int kind, int x); int b_m(xn::XM m); xn::XM b_mm(int x);
struct XK { OBJ(XK, virtual) virtual int w(XK *o); virtual int wc(const XK &o); virtual int wt(XK *o); static XK *held; };
void k_take(XK *p); void k_release(); int k_call(XK *p, int how);
std::vector<XV> b_l(std::vector<XV> l); inline bool operator<(const XV &a, const XV &b) { return a.v < b.v; }
struct XS { XV v; XS() {} int got() const { return v.v; } };
'''
SRC = '''
XK *XK::held; XP *XP::held, *XP::seen; XC *XC::held;
int XP::f(int k) { vh_ev("XP::f"); vh_i(v); vh_i(k); return g("XP::f"); } int XA::f(int k) { vh_ev("XA::f"); vh_i(v); vh_i(k); return g("XA::f"); }
int XQ::f(int k) { vh_ev("XQ::f"); vh_i(v); vh_i(k); return g("XQ::f"); } int XQ::h(int k) { vh_ev("XQ::h"); vh_i(v); vh_i(k); return g("XQ::h"); }
int XP::plain(int k) { vh_ev("XP::plain"); vh_i(v); vh_i(k); return g("XP::plain"); } int XA::onlya(int k) { vh_ev("XA::onlya"); vh_i(v); vh_i(k); return g("XA::onlya"); }
int XQ::onlyq(int k) { vh_ev("XQ::onlyq"); vh_i(v); vh_i(k); return g("XQ::onlyq"); }
int XT::f(int k) { vh_ev("XT::f"); vh_i(v); vh_i(k); return g("XT::f"); }
static XP *xnew(int kind, int x) { switch (kind) { case 0: return new XP(x); case 1: return new XA(x); case 2: return new XQ(x); case 3: return new XR(x); case 4: return new XH(x);
  case 5: return new XI(x); } return NULL; }
XP *a_give(int kind, int x) { return xnew(kind, x); } XP *b_give(int kind, int x) { return xnew(kind, x); }
void a_take(XP *p) { vh_ev("a_take"); vh_i(p->id); delete XP::held; XP::held = p; } void b_take(XP *p) { vh_ev("b_take"); vh_i(p->id); delete XP::held; XP::held = p; }
void a_hold(XP *p) { vh_ev("a_hold"); vh_i(p->id); XP::seen = p; } void b_hold(XP *p) { vh_ev("b_hold"); vh_i(p->id); XP::seen = p; }
XP *a_seen() { return XP::seen; } XP *b_seen() { return XP::seen; } XP *a_held() { return XP::held; } XP *b_held() { return XP::held; } void x_release() { delete XP::held; XP::held = NULL; }
int a_f(XP *p, int k) { vh_ev("a_f"); return p ? p->f(k) : -5; } int b_f(XP *p, int k) { vh_ev("b_f"); return p ? p->f(k) : -5; }
int b_r(const XP &p, int k) { vh_ev("b_r"); vh_i(p.v); vh_i(k); return g("b_r"); } int b_h(XQ *p, int k) { vh_ev("b_h"); return p->h(k); }
int a_t(XT *p, int k) { vh_ev("a_t"); return p->f(k); }
int XK::w(XK *o) { vh_ev("XK::w"); vh_i(o ? o->id : -1); return g("XK::w"); } int XK::wc(const XK &o) { vh_ev("XK::wc"); vh_i(o.id); return g("XK::wc"); }
int XK::wt(XK *o) { vh_ev("XK::wt"); vh_i(o ? o->id : -1); delete o; return g("XK::wt"); }
void k_take(XK *p) { vh_ev("k_take"); vh_i(p->id); delete XK::held; XK::held = p; } void k_release() { delete XK::held; XK::held = NULL; }
int k_call(XK *p, int how) { vh_ev("k_call"); if (how == 0) return p->w(XK::held); if (how == 1) return p->wc(*XK::held); XK *h = XK::held; XK::held = NULL; return p->wt(h); }
XV b_v(XV v) { vh_ev("b_v"); vh_i(v.v); return XV(g("b_v")); } int b_vp(const XV &v) { vh_ev("b_vp"); vh_i(v.v); return g("b_vp"); } XV a_v(int x) { return XV(x); }
XV *b_vn(int x) { return new XV(x); }
void b_keep(XC *c) { vh_ev("b_keep"); vh_i(c->id); c->ref(); if (XC::held) XC::held->unref(); XC::held = c; } XC *a_kept() { return XC::held; } XC *b_kept() { return XC::held; }
void x_unkeep() { if (XC::held) XC::held->unref(); XC::held = NULL; } XC *b_fresh(int x) { return new XC(x); }
int b_n(xn::XN *p, int k) { vh_ev("b_n"); return p->f(k); } xn::XN *b_nn(int kind, int x) { return kind ? new XD(x) : new xn::XN(x); }
std::vector<XV> b_l(std::vector<XV> l) { vh_ev("b_l"); for (size_t i = 0; i < l.size(); i++) vh_i(l[i].v); std::vector<XV> r; for (int i = vh_choose("len", 3); i > 0; i--) r.push_back(XV(g("b_l"))); return r; }
int b_m(xn::XM m) { vh_ev("b_m"); vh_i(m.v); return g("b_m"); } xn::XM b_mm(int x) { return xn::XM(x); }
'''
FTS = [Ft(['XK', 'XP', 'XT', 'XV', 'XC', 'xn::XN', 'xn::XM'], '#include <vector>\n' + HDR, SRC, lambda m, made: None)]
FTS[0].reset = 'k_release(); XP::seen = NULL; x_release(); x_unkeep();'


def base(k, cons=True):
    from pybindgen import param
    if cons:
        k.add_constructor([param('int', 'x')])
    k.add_instance_attribute('v', 'int')
    k.add_method('ident', 'int', [], is_const=True)
    return k


def pclasses(m, imp):
    """the classes of the first module; the second one declares them again, as the documentation's example does"""
    from pybindgen import param
    p = m.add_class('XP', automatic_type_narrowing=True, allow_subclassing=True, **imp)
    base(p)
    p.add_method('f', 'int', [param('int', 'k')], is_virtual=True)
    p.add_method('plain', 'int', [param('int', 'k')])
    a = m.add_class('XA', parent=p, **imp)
    a.add_constructor([param('int', 'x')])
    a.add_method('f', 'int', [param('int', 'k')], is_virtual=True)
    a.add_method('onlya', 'int', [param('int', 'k')])
    v = m.add_class('XV', **imp)
    v.add_constructor([])
    base(v)
    v.add_copy_constructor()
    from pybindgen.cppclass import ReferenceCountingMethodsPolicy
    c = m.add_class('XC', memory_policy=ReferenceCountingMethodsPolicy(incref_method='ref', decref_method='unref', peekref_method=None), **imp)
    base(c)
    return p, a, v, c


def generate(outfile):
    from pybindgen import Module, FileCodeSink, param, retval, settings, wrapper_registry
    settings.wrapper_registry = wrapper_registry.StdMapWrapperRegistry
    m = Module('m19a')
    m.add_include('"lib.h"')
    import gen
    gen.add_exceptions(m)
    pclasses(m, {})
    t = base(m.add_class('XT', allow_subclassing=True))
    t.add_method('f', 'int', [param('int', 'k')], is_virtual=True)
    n = base(m.add_class('XN', foreign_cpp_namespace='xn', automatic_type_narrowing=True))
    n.add_method('f', 'int', [param('int', 'k')], is_virtual=True)
    xm = base(m.add_class('XM', foreign_cpp_namespace='xn'))
    xm.add_copy_constructor()
    m.add_function('a_f', 'int', [param('XP*', 'p', transfer_ownership=False), param('int', 'k')])
    m.add_function('a_t', 'int', [param('XT*', 'p', transfer_ownership=False), param('int', 'k')])
    m.add_function('a_give', retval('XP*', caller_owns_return=True), [param('int', 'kind'), param('int', 'x')])
    m.add_function('a_take', None, [param('XP*', 'p', transfer_ownership=True)])
    m.add_function('a_hold', None, [param('XP*', 'p', transfer_ownership=False)])
    m.add_function('a_seen', retval('XP*', reference_existing_object=True), [])
    m.add_function('a_held', retval('XP*', reference_existing_object=True), [])
    m.add_function('a_v', 'XV', [param('int', 'x')])
    m.add_function('a_kept', retval('XC*', caller_owns_return=False), [])
    with open('moda.cc', 'w') as o:
        m.generate(FileCodeSink(o))

    import pybindgen.typehandlers.base as tb
    for tm in (tb.param_type_matcher, tb.return_type_matcher):
        for x in ('XP', 'XA', 'XV', 'XC', 'XT', 'xn::XN', 'xn::XM', 'XN', 'XM', 'Err'):
            for k in [k for k in tm._types if k.replace('const ', '').rstrip(' &*') == x]:
                del tm._types[k]
    m = Module('m19')
    m.add_include('"lib.h"')
    p, a, v, c = pclasses(m, dict(import_from_module='m19a'))
    ns = m.add_cpp_namespace('xn')
    n = base(ns.add_class('XN', automatic_type_narrowing=True, import_from_module='m19a'))
    n.add_method('f', 'int', [param('int', 'k')], is_virtual=True)
    xm = base(ns.add_class('XM', import_from_module='m19a'))
    xm.add_copy_constructor()
    q = m.add_class('XQ', parent=p, allow_subclassing=True)
    q.add_constructor([param('int', 'x')])
    q.add_method('f', 'int', [param('int', 'k')], is_virtual=True)
    q.add_method('h', 'int', [param('int', 'k')], is_virtual=True)
    q.add_method('onlyq', 'int', [param('int', 'k')])
    r = m.add_class('XR', parent=a)
    r.add_constructor([param('int', 'x')])
    xd = m.add_class('XD', parent=n)
    xd.add_constructor([param('int', 'x')])
    w = m.add_class('XW')
    w.add_constructor([param('int', 'x')])
    w.implicitly_converts_to(v)
    s = m.add_class('XS')
    s.add_constructor([])
    s.add_instance_attribute('v', 'XV')
    s.add_method('got', 'int', [], is_const=True)
    m.add_function('b_f', 'int', [param('XP*', 'p', transfer_ownership=False), param('int', 'k')])
    m.add_function('b_r', 'int', [param('XP const&', 'p'), param('int', 'k')])
    m.add_function('b_h', 'int', [param('XQ*', 'p', transfer_ownership=False), param('int', 'k')])
    m.add_function('b_give', retval('XP*', caller_owns_return=True), [param('int', 'kind'), param('int', 'x')])
    m.add_function('b_take', None, [param('XP*', 'p', transfer_ownership=True)])
    m.add_function('b_hold', None, [param('XP*', 'p', transfer_ownership=False)])
    m.add_function('b_seen', retval('XP*', reference_existing_object=True), [])
    m.add_function('b_held', retval('XP*', reference_existing_object=True), [])
    m.add_function('x_release', None, [])
    m.add_function('b_v', 'XV', [param('XV', 'v')])
    m.add_function('b_vp', 'int', [param('XV const&', 'v')])
    k = base(m.add_class('XK', allow_subclassing=True))
    k.add_copy_constructor()
    k.add_method('w', 'int', [param('XK*', 'o', transfer_ownership=False)], is_virtual=True)
    k.add_method('wc', 'int', [param('XK const&', 'o')], is_virtual=True)
    k.add_method('wt', 'int', [param('XK*', 'o', transfer_ownership=True)], is_virtual=True)
    m.add_function('k_take', None, [param('XK*', 'p', transfer_ownership=True)])
    m.add_function('k_release', None, [])
    m.add_function('k_call', 'int', [param('XK*', 'p', transfer_ownership=False), param('int', 'how')])
    m.add_container('std::vector<XV>', 'XV', 'vector')
    m.add_function('b_l', 'std::vector<XV>', [param('std::vector<XV>', 'l')])
    m.add_function('b_vn', retval('XV*', caller_owns_return=True), [param('int', 'x')])
    m.add_function('b_keep', None, [param('XC*', 'c', transfer_ownership=False)])
    m.add_function('b_kept', retval('XC*', caller_owns_return=False), [])
    m.add_function('b_fresh', retval('XC*', caller_owns_return=True), [param('int', 'x')])
    m.add_function('x_unkeep', None, [])
    m.add_function('b_n', 'int', [param('xn::XN*', 'p', transfer_ownership=False), param('int', 'k')])
    m.add_function('b_nn', retval('xn::XN*', caller_owns_return=True), [param('int', 'kind'), param('int', 'x')])
    m.add_function('b_m', 'int', [param('xn::XM', 'm')])
    m.add_function('b_mm', 'xn::XM', [param('int', 'x')])
    with open(outfile, 'w') as o:
        m.generate(FileCodeSink(o))


# class and module of every kind of xnew(), and the class the object is wrapped in
KINDS = [('XP', 'm19a'), ('XA', 'm19a'), ('XQ', 'm19'), ('XR', 'm19'), ('XQ', 'm19'), ('XA', 'm19a')]
F = ['XP', 'XA', 'XQ', 'XA', 'XQ', 'XA']   # implementation of f


def cls(d, n):
    for m in ('m19', 'm19a'):
        o = d.getattr(d.module(m), n)
        if o is not None:
            return o
    d.require(False, '%s is missing' % n)


def make(d, n):
    v, vo = num(d, 'v')
    o = ok(d, d.call(cls(d, n), [vo]), 'the constructor of %s' % n)
    d.events()
    return o, v


def fn(d, n):
    return d.module('m19a' if n.startswith('a_') else 'm19')


# arguments -----------------------------------------------------------------------------------------------
def _arg(d, f):
    n = ('XP', 'XA', 'XQ', 'XR')[d.choose('cls', 4)]
    o, v = make(d, n)
    k, ko = num(d, 'k')
    r = d.callm(fn(d, f), f, o, ko)
    if f == 'b_h' and n != 'XQ':
        fails(d, r, 'TypeError')
        return silent(d)
    if f == 'b_r':
        ran(d, 'b_r', [v, k])
        return isint(d, r, res(d, 'b_r'))
    evs = d.events()
    impl = {'XP': 'XP', 'XA': 'XA', 'XQ': 'XQ', 'XR': 'XA'}[n] + ('::h' if f == 'b_h' else '::f')
    d.require([e[0] for e in evs] == [f, impl], 'ran %s' % [e[0] for e in evs])
    d.require(d.eq(evs[1][2][0], v) and d.eq(evs[1][2][1], k), 'other values arrive')
    isint(d, r, res(d, impl))


for _f in ('a_f', 'b_f', 'b_r', 'b_h'):
    SCENARIOS.append(Sc('arg/' + _f, lambda d, f=_f: _arg(d, f), ('P20', 'P07')))


@sc('arg/other', 'P20', 'P09')
def _(d):
    f = ('a_f', 'b_f', 'b_r', 'b_h')[d.choose('f', 4)]
    k, ko = num(d, 'k')
    w = d.choose('what', 4)
    if w == 3:
        r = d.callm(fn(d, f), f, d.none(), ko)
    else:
        o, v = make(d, ('XT', 'XV', 'XN')[w])
        r = d.callm(fn(d, f), f, o, ko)
    fails(d, r, 'TypeError')
    silent(d)


@sc('inherited-methods', 'P20')
def _(d):
    n = ('XA', 'XQ', 'XR')[d.choose('cls', 3)]
    o, v = make(d, n)
    k, ko = num(d, 'k')
    mn = ('f', 'plain', 'onlya', 'onlyq')[d.choose('m', 4)]
    if (mn == 'onlya') > (n != 'XQ') or (mn == 'onlyq') > (n == 'XQ'):
        return fails(d, d.callm(o, mn, ko), 'AttributeError')
    r = ok(d, d.callm(o, mn, ko))
    impl = {'f': {'XA': 'XA', 'XQ': 'XQ', 'XR': 'XA'}[n], 'plain': 'XP', 'onlya': 'XA', 'onlyq': 'XQ'}[mn] + '::' + mn
    ran(d, impl, [v, k])
    isint(d, r, res(d, impl))
    d.require(d.eq(field(d, o), v), 'the attribute of the base class has another value')


# results: narrowing ------------------------------------------------------------------------------------------
def _give(d, f):
    kind = d.choose('kind', 7)
    x, xo = num(d, 'x')
    o = ok(d, d.callm(fn(d, f), f, d.int(kind), xo))
    if kind == 6:
        return d.require(d.kind(o) == 'none', 'NULL is not None')
    d.require(d.type_is(o, attr_of(d, KINDS[kind])), 'the object is not wrapped in the most derived registered class %s' % KINDS[kind][0])
    d.require(d.eq(field(d, o), x), 'the object has another value')
    k, ko = num(d, 'k')
    r = d.callm(fn(d, 'b_f'), 'b_f', o, ko)
    evs = d.events()
    d.require([e[0] for e in evs] == ['b_f', F[kind] + '::f'], 'ran %s' % [e[0] for e in evs])
    isint(d, r, res(d, F[kind] + '::f'))


def attr_of(d, nm):
    o = d.getattr(d.module(nm[1]), nm[0])
    d.require(o is not None, '%s is missing' % nm[0])
    return o


for _f in ('a_give', 'b_give'):
    SCENARIOS.append(Sc('result/' + _f, lambda d, f=_f: _give(d, f), ('P20', 'P10')))


# identity and ownership ------------------------------------------------------------------------------------------
@sc('identity', 'P19', 'P10', weight=2)
def _(d):
    kind = d.choose('kind', 6)
    x, xo = num(d, 'x')
    how = d.choose('how', 3)
    if how == 2:
        n = KINDS[kind][0]
        o, x = make(d, n)
    else:
        f = ('a_give', 'b_give')[how]
        o = ok(d, d.callm(fn(d, f), f, d.int(kind), xo))
    i = ident(d, o)
    n = KINDS[kind]
    if d.choose('live', 2):
        h = ('a_hold', 'b_hold')[d.choose('hold', 2)]
        ok(d, d.callm(fn(d, h), h, o))
        ran(d, h, [i])
        s = ('a_seen', 'b_seen')[d.choose('seen', 2)]
        q = ok(d, d.callm(fn(d, s), s))
        d.require(d.is_(q, o), 'the live wrapper of the object is not the one that is returned')
        return d.require(d.eq(ident(d, q), i), 'another object comes back')
    t = ('a_take', 'b_take')[d.choose('take', 2)]
    ok(d, d.callm(fn(d, t), t, o))
    ran(d, t, [i])
    h = ('a_held', 'b_held')[d.choose('held', 2)]
    q = ok(d, d.callm(fn(d, h), h))
    d.require(d.type_is(q, attr_of(d, n)), 'the object is not wrapped in %s' % n[0])
    d.require(d.eq(field(d, q), x) and d.eq(ident(d, q), i), 'another object comes back')
    q2 = ok(d, d.callm(fn(d, 'a_held'), 'a_held'))
    d.require(d.is_(q, q2), 'two wrappers of one object')


@sc('identity/dead', 'P19')
def _(d):
    # the record goes with the wrapper: in whichever module either of them was made
    n = ('XP', 'XQ', 'XR')[d.choose('cls', 3)]
    o, v = make(d, n)
    i = ident(d, o)
    t = ('a_take', 'b_take')[d.choose('take', 2)]
    ok(d, d.callm(fn(d, t), t, o))
    d.drop(o)
    q = ok(d, d.callm(fn(d, 'a_held'), 'a_held'))
    d.require(d.eq(ident(d, q), i), 'another object comes back')
    d.drop(q)
    q = ok(d, d.callm(fn(d, 'b_held'), 'b_held'))
    d.require(d.eq(ident(d, q), i) and d.eq(field(d, q), v), 'another object comes back')
    d.drop(q)
    ok(d, d.callm(d.module(), 'x_release'))
    q = ok(d, d.callm(fn(d, 'b_held'), 'b_held'))
    d.require(d.kind(q) == 'none', 'NULL is not None')


# virtual methods -------------------------------------------------------------------------------------------------
def _virt(d, f):
    n = ('XP', 'XQ')[d.choose('cls', 2)]
    k, ko = num(d, 'k')
    y, yo = num(d, 'y')
    up = d.choose('up', 3)

    def m(me, a):
        d.require(d.eq(d.ival(a), k), 'the override gets another value')
        d.require(d.is_(me, o), 'the override gets another object')
        return d.int(y)
    mn = 'h' if f == 'b_h' else 'f'
    v, vo = num(d, 'v')
    o = ok(d, d.call(d.subclass(cls(d, n), 'Sub', {mn: m} if up else {}), [vo]))
    d.events()
    if f == 'b_h' and n == 'XP':
        return fails(d, d.callm(fn(d, f), f, o, ko), 'TypeError')
    r = d.callm(fn(d, f), f, o, ko)
    evs = d.events()
    impl = '%s::%s' % (n, mn)
    d.require([e[0] for e in evs] == [f] + ([] if up else [impl]), 'ran %s' % [e[0] for e in evs])
    if not up:
        d.require(d.eq(evs[1][2][0], v) and d.eq(evs[1][2][1], k), 'other values arrive')
    isint(d, r, y if up else res(d, impl))
    if up == 2:
        h = ('a_hold', 'b_hold')[d.choose('hold', 2)]
        ok(d, d.callm(fn(d, h), h, o))
        q = ok(d, d.callm(fn(d, 'b_seen'), 'b_seen'))
        d.require(d.is_(q, o), 'the live wrapper of the object is not the one that is returned')
        q = ok(d, d.callm(fn(d, 'a_seen'), 'a_seen'))
        d.require(d.is_(q, o), 'the live wrapper of the object is not the one that is returned')


for _f in ('a_f', 'b_f', 'b_h'):
    SCENARIOS.append(Sc('virtual/' + _f, lambda d, f=_f: _virt(d, f), ('P15', 'P20')))


# an object that was given to C++ comes back as argument of a virtual method -------------------------------------------
def _back(d, how):
    n = ('w', 'wc', 'wt')[how]
    y, yo = num(d, 'y')
    x, xo = num(d, 'x')
    sub = d.choose('sub', 2)
    got = []

    def m(me, a):
        got.append(1)
        d.require(d.eq(field(d, a), x), 'the override gets another value')
        if how == 2 or sub and how == 0:     # otherwise a copy
            d.require(d.eq(ident(d, a), i), 'the override gets another object')
        if sub and how != 1:
            d.require(d.is_(a, b), 'the override gets another wrapper of the object')
        if keep:
            kept.append(d.keep(a))
        if fail:
            d.throw()
        return d.int(y)
    kept = []
    keep = d.choose('keep', 2) if how == 2 else 0
    fail = d.choose('fail', 2)
    t = d.subclass(cls(d, 'XK'), 'Sub', {n: m})
    v, vo = num(d, 'v')
    p = ok(d, d.call(t, [vo]))
    b = ok(d, d.call(d.subclass(cls(d, 'XK'), 'Other', {}) if sub else cls(d, 'XK'), [xo]))
    i = ident(d, b)
    d.events()
    ok(d, d.callm(d.module(), 'k_take', b))
    ran(d, 'k_take', [i])
    r = d.callm(d.module(), 'k_call', p, d.int(how))
    evs = d.events()
    d.require(got == [1], 'the override runs %d times' % len(got))
    if fail:
        d.require([e[0] for e in evs] == ['k_call', 'XK::' + n], 'ran %s' % [e[0] for e in evs])
        d.require(d.eq(evs[1][2][0], i), 'the parent method gets another object')
        isint(d, r, res(d, 'XK::' + n))
    else:
        d.require([e[0] for e in evs] == ['k_call'], 'ran %s' % [e[0] for e in evs])
        isint(d, r, y)
    d.require(bool(d.reported()) == bool(fail), 'the failure is not reported')
    if kept and not fail:
        d.require(d.eq(ident(d, kept[0]), i) and d.eq(field(d, kept[0]), x), 'the object changed after the call')


for _h in (0, 1, 2):
    SCENARIOS.append(Sc('comes-back/' + ('pointer', 'reference', 'transferred')[_h], lambda d, h=_h: _back(d, h), ('P15', 'P10')))


# values ------------------------------------------------------------------------------------------------------------
@sc('value', 'P10', 'P07', 'P20')
def _(d):
    x, xo = num(d, 'x')
    how = d.choose('how', 4)
    if how == 0:
        o = ok(d, d.callm(fn(d, 'a_v'), 'a_v', xo))
    elif how == 1:
        o, x = make(d, 'XV')
    elif how == 2:
        o = ok(d, d.callm(fn(d, 'b_vn'), 'b_vn', xo))
    else:
        o, x = make(d, 'XW')
    f = ('b_v', 'b_vp')[d.choose('f', 2)]
    r = d.callm(fn(d, f), f, o)
    ok(d, r)
    ran(d, f, [x])
    if f == 'b_vp':
        return isint(d, r, res(d, 'b_vp'))
    d.require(d.type_is(r, cls(d, 'XV')), 'the result has another class')
    d.require(d.eq(field(d, r), res(d, 'b_v')), 'the result has another value')


@sc('value/attribute', 'P18', 'P10')
def _(d):
    s = ok(d, d.call(cls(d, 'XS'), []))
    d.events()
    how = d.choose('how', 3)
    o, v = make(d, ('XV', 'XW', 'XP')[how])
    okk = d.setattr(s, 'v', o)
    if how:
        d.require(not okk and d.xname == 'TypeError', 'an object of another class is accepted')
        v = res(d, 'XV.v')
    else:
        d.require(okk, 'the object is refused')
    isint(d, d.callm(s, 'got'), v)
    d.events()
    q = ok(d, d.getattr(s, 'v'))
    d.require(d.type_is(q, cls(d, 'XV')) and d.eq(field(d, q), v), 'the attribute has another value')


@sc('container', 'P16', 'P10')
def _(d):
    n = d.choose('n', 3)
    vs = []
    xs = []
    for i in range(n):
        o, v = make(d, 'XV')
        vs.append(v)
        xs.append(o)
    bad = d.choose('bad', 3) if n else 0
    if bad:
        xs[-1], _v = make(d, ('XP', 'XC')[bad - 1])
    r = d.callm(d.module(), 'b_l', d.list(xs))
    if bad:
        fails(d, r, 'TypeError')
        return silent(d)
    ok(d, r)
    ran(d, 'b_l', vs)
    it = ok(d, d.iter(r))
    for i in range(d.made('len#0')):
        e = d.next(it)
        d.require(e is not None and d.type_is(e, cls(d, 'XV')) and d.eq(field(d, e), res(d, 'b_l', i)), 'an element has another class or value')
    e = d.next(it)
    d.require(e is None and d.xname in (None, 'StopIteration'), 'the iteration does not stop')


@sc('counted', 'P10', 'P19')
def _(d):
    x, xo = num(d, 'x')
    if d.choose('fresh', 2):
        o = ok(d, d.callm(fn(d, 'b_fresh'), 'b_fresh', xo))
    else:
        o, x = make(d, 'XC')
    i = ident(d, o)
    ok(d, d.callm(fn(d, 'b_keep'), 'b_keep', o))
    ran(d, 'b_keep', [i])
    f = ('a_kept', 'b_kept')[d.choose('f', 2)]
    if d.choose('drop', 2):
        d.drop(o)
        o = None
    q = ok(d, d.callm(fn(d, f), f))
    d.require(d.eq(ident(d, q), i) and d.eq(field(d, q), x), 'another object comes back')
    if o is not None:
        d.require(d.is_(o, q), 'the live wrapper of the object is not the one that is returned')
    ok(d, d.callm(d.module(), 'x_unkeep'))
    d.require(d.eq(ident(d, q), i) and d.eq(field(d, q), x), 'the object changed after C++ let it go')


# classes of a namespace that are imported: their subclass is in the root module -------------------------------------------
@sc('namespace', 'P20')
def _(d):
    how = d.choose('how', 4)
    k, ko = num(d, 'k')
    x, xo = num(d, 'x')
    n = ('XN', 'XD', 'XN', 'XD')[how]
    if how < 2:
        o, x = make(d, n)
    else:
        o = ok(d, d.callm(d.module(), 'b_nn', d.int(how - 2), xo))
    d.require(d.type_is(o, cls(d, n)), 'the object is not wrapped in %s' % n)
    d.require(d.eq(field(d, o), x), 'the object has another value')
    r = d.callm(d.module(), 'b_n', o, ko)
    evs = d.events()
    d.require([e[0] for e in evs] == ['b_n', 'XN::f'], 'ran %s (%s)' % ([e[0] for e in evs], d.xname))
    isint(d, r, res(d, 'XN::f'))


@sc('namespace/value', 'P10')
def _(d):
    x, xo = num(d, 'x')
    if d.choose('how', 2):
        o, x = make(d, 'XM')
    else:
        o = ok(d, d.callm(d.module(), 'b_mm', xo))
        d.require(d.type_is(o, cls(d, 'XM')), 'the object has another class')
    r = d.callm(d.module(), 'b_m', o)
    ran(d, 'b_m', [x])
    isint(d, r, res(d, 'b_m'))


def header():
    return feat.header(FTS)


def source():
    return feat.source(FTS)
