"""corpus module 17: protected members, abstract classes, inherited constructors and overloads, functions as constructors, classes that cannot be
constructed, templates, foreign namespaces, inner classes and enums, deprecated entities, custom wrappers, helper hooks"""
import feat
from feat import Ft, Sc, attr, num, ran, silent, ok, fails, isint, res, new, field, ident

FTS = []
SCENARIOS = []


def sc(name, *tags, **kw):
    def deco(fn):
        SCENARIOS.append(Sc(name, fn, tags, **kw))
        return fn
    return deco


def base(k, cons=True):
    from pybindgen import param
    if cons:
        k.add_constructor([param('int', 'x')])
    k.add_instance_attribute('v', 'int')
    k.add_method('ident', 'int', [], is_const=True)
    return k


# protected members -----------------------------------------------------------
def _gen(m, made):
    from pybindgen import param
    k = base(m.add_class('PA', allow_subclassing=True))
    k.add_method('prot', 'int', [param('int', 'k')], visibility='protected')
    k.add_method('pc', 'int', [param('int', 'k')], is_const=True, visibility='protected')
    k.add_method('pv', 'int', [param('int', 'k')], is_virtual=True, is_const=True, visibility='protected')
    k.add_method('call_pv', 'int', [param('int', 'k')], is_const=True)
    k.add_method('both', 'int', [param('int', 'k')], is_virtual=True)
    q = m.add_class('PC', allow_subclassing=True)
    q.add_constructor([param('int', 'x')], visibility='protected')
    q.add_instance_attribute('v', 'int')
    q.add_method('ident', 'int', [], is_const=True)
    q.add_method('w', 'int', [param('int', 'k')], is_virtual=True)
    m.add_function('PC_see', 'int', [param('PC&', 'x')])


FTS.append(Ft(['PA', 'PC'], '''
struct PA { OBJ(PA, virtual)
  int call_pv(int k) const { return pv(k); }
  virtual int both(int k) { vh_ev("PA::both"); vh_i(id); vh_i(k); return g("PA::both.r"); }
protected:
  int prot(int k) { vh_ev("PA::prot"); vh_i(id); vh_i(k); return g("PA::prot.r"); }
  int pc(int k) const { vh_ev("PA::pc"); vh_i(id); vh_i(k); return g("PA::pc.r"); }
  virtual int pv(int k) const { vh_ev("PA::pv"); vh_i(id); vh_i(k); return g("PA::pv.r"); } };
struct PC { int v; int id; static int live; virtual ~PC() { v = -77; live--; } int ident() const { return id; }
  virtual int w(int k) { vh_ev("PC::w"); vh_i(id); vh_i(k); return g("PC::w.r"); }
protected: PC(int x) : v(x), id(vh_id()) { live++; } private: PC(const PC &); };
int PC_see(PC &x);
''', 'int PC_see(PC &x) { vh_ev("PC_see"); vh_i(x.id); return x.w(5); }', _gen))


@sc('protected/plain', 'P15', 'P09')
def _(d):
    o, v = new(d, 'PA')
    for n in ('prot', 'pc', 'pv'):
        k, h = num(d, n)
        m = d.getattr(o, n)
        if m is None:
            continue
        r = d.call(m, [h])
        fails(d, r, 'TypeError', 'a protected method of an instance of the C++ class')
        silent(d)


@sc('protected/sub', 'P15', 'P07')
def _(d):
    t = d.subclass(attr(d, 'PA'), 'Sub', {})
    v, h = num(d, 'v')
    o = ok(d, d.call(t, [h]))
    i = ident(d, o)
    d.events()
    for n in ('prot', 'pc', 'pv', 'both'):
        k, h = num(d, n)
        r = ok(d, d.callm(o, n, h), 'a protected method on an instance of a subclass')
        ran(d, 'PA::' + n, [i, k])
        isint(d, r, res(d, 'PA::%s.r' % n))
    d.require(d.callm(o, 'prot', d.none()) is None and d.xname == 'TypeError', 'an unacceptable argument is accepted')
    silent(d)
    k, h = num(d, 'k')
    r = ok(d, d.callm(o, 'call_pv', h))
    ran(d, 'PA::pv', [i, k])
    isint(d, r, res(d, 'PA::pv.r', 1))


@sc('protected/override', 'P15')
def _(d):
    st = {}

    def pv(me, k):
        d.require(d.is_(me, st['o']), 'the override runs with another object')
        d.require(d.eq(d.ival(k), st['k']), 'the override gets another value')
        r = ok(d, d.callm(me, 'prot', k), 'a protected method called in an override')
        isint(d, r, res(d, 'PA::prot.r'))
        return r
    t = d.subclass(attr(d, 'PA'), 'Sub', {'pv': pv})
    v, h = num(d, 'v')
    st['o'] = o = ok(d, d.call(t, [h]))
    i = ident(d, o)
    d.events()
    st['k'], h = num(d, 'k')
    r = ok(d, d.callm(o, 'call_pv', h))
    ran(d, 'PA::prot', [i, st['k']])
    isint(d, r, res(d, 'PA::prot.r'))


@sc('protected/constructor', 'P09', 'P10')
def _(d):
    v, h = num(d, 'v')
    fails(d, d.call(attr(d, 'PC'), [h]), 'TypeError', 'a protected constructor')
    silent(d)
    got = []

    def w(me, k):
        got.append(d.ival(k))
        return d.int(st)
    st, _h = num(d, 'st')
    t = d.subclass(attr(d, 'PC'), 'Sub', {'w': w})
    o = ok(d, d.call(t, [h]))
    d.require(d.eq(field(d, o), v), 'the object has the wrong value')
    r = ok(d, d.callm(d.module(), 'PC_see', o))
    isint(d, r, st)
    d.require(len(got) == 1 and d.eq(got[0], 5), 'the override runs %d times' % len(got))


# abstract classes ------------------------------------------------------------
def _gen(m, made):
    from pybindgen import param, retval
    k = base(m.add_class('AB', allow_subclassing=True))
    k.add_method('f', 'int', [param('int', 'k')], is_virtual=True, is_pure_virtual=True)
    k.add_method('h', None, [param('int', 'k')], is_virtual=True, is_pure_virtual=True, is_const=True)
    m.add_function('AB_f', 'int', [param('AB&', 'x'), param('int', 'k')])
    m.add_function('AB_h', None, [param('AB&', 'x'), param('int', 'k')])
    c = m.add_class('AC', parent=k)
    c.add_constructor([param('int', 'x')])
    c.add_method('f', 'int', [param('int', 'k')], is_virtual=True)
    e = m.add_class('AD', parent=c)
    e.add_constructor([param('int', 'x')])
    e.add_method('h', None, [param('int', 'k')], is_virtual=True, is_const=True)
    n = base(m.add_class('AN'))
    n.add_method('f', 'int', [param('int', 'k')], is_virtual=True, is_pure_virtual=True)
    m.add_function('AN_get', retval('AN*', caller_owns_return=True), [])
    i = m.add_class('AI', parent=n)
    i.add_constructor([param('int', 'x')])
    i.add_method('f', 'int', [param('int', 'k')], is_virtual=True)


FTS.append(Ft(['AB', 'AN'], '''
struct AB { OBJ(AB, virtual) virtual int f(int k) = 0; virtual void h(int k) const = 0; };
struct AC : AB { AC(int x) : AB(x) {} virtual int f(int k) { vh_ev("AC::f"); vh_i(id); vh_i(k); return g("AC::f.r"); } };
struct AD : AC { AD(int x) : AC(x) {} virtual void h(int k) const { vh_ev("AD::h"); vh_i(id); vh_i(k); } };
struct AN { OBJ(AN, virtual) virtual int f(int k) = 0; };
struct AI : AN { AI(int x) : AN(x) {} virtual int f(int k) { vh_ev("AI::f"); vh_i(id); vh_i(k); return g("AI::f.r"); } };
int AB_f(AB &x, int k); void AB_h(AB &x, int k); AN *AN_get();
''', 'int AB_f(AB &x, int k) { return x.f(k); } void AB_h(AB &x, int k) { x.h(k); } AN *AN_get() { return new AI(g("AN_get.v")); }', _gen))


@sc('abstract/construct', 'P09', 'P10')
def _(d):
    v, h = num(d, 'v')
    for c in ('AB', 'AN', 'AC'):
        fails(d, d.call(attr(d, c), [h]), 'TypeError', 'the constructor of an abstract class')
        silent(d)
    o = ok(d, d.call(attr(d, 'AI'), [h]))
    i = ident(d, o)
    d.require(d.eq(field(d, o), v), 'the object has the wrong value')
    r = ok(d, d.callm(o, 'f', h))
    ran(d, 'AI::f', [i, v])
    isint(d, r, res(d, 'AI::f.r'))


@sc('abstract/returned', 'P20', 'P10')
def _(d):
    o = ok(d, d.callm(d.module(), 'AN_get'))
    d.require(d.type_is(o, attr(d, 'AN')), 'the object is not an instance of the declared class')
    i = ident(d, o)
    k, h = num(d, 'k')
    r = ok(d, d.callm(o, 'f', h), 'a pure virtual method of the declared class')
    ran(d, 'AI::f', [i, k])
    isint(d, r, res(d, 'AI::f.r'))
    d.require(d.eq(field(d, o), res(d, 'AN_get.v')), 'the object has the wrong value')


def _abstract(d, cls, over):
    """instance of a Python subclass of cls that overrides `over`"""
    calls = []
    y, yo = num(d, 'y')

    def f(me, k):
        calls.append(('f', d.ival(k)))
        return d.int(y)

    def h(me, k):
        calls.append(('h', d.ival(k)))
        return d.none()
    t = d.subclass(attr(d, cls), 'Sub', dict((n, {'f': f, 'h': h}[n]) for n in over))
    v, vo = num(d, 'v')
    o = ok(d, d.call(t, [vo]), 'a Python subclass of an abstract class')
    i = ident(d, o)
    d.events()
    k, ko = num(d, 'k')
    for n in ('f', 'h'):
        del calls[:]
        r = d.callm(d.module(), 'AB_' + n, o, ko)
        if n in over:
            ok(d, r)
            silent(d)
            d.require(len(calls) == 1 and calls[0][0] == n and d.eq(calls[0][1], k), 'the override does not run once with the value')
            if n == 'f':
                isint(d, r, y)
        else:
            own = {'f': 'AC' if cls != 'AB' else None, 'h': 'AD' if cls == 'AD' else None}[n]
            if own:
                ok(d, r)
                ran(d, '%s::%s' % (own, n), [i, k])
            else:
                d.reported()
                silent(d)
            d.require(not calls, 'another override runs')
    d.require(d.eq(ident(d, o), i) and d.eq(field(d, o), v), 'the wrapper refers to another object')


for _c, _ov in (('AB', ('f', 'h')), ('AB', ('f',)), ('AC', ('h',)), ('AC', ('f', 'h')), ('AD', ()), ('AD', ('f',)), ('AD', ('h',)), ('AD', ('f', 'h'))):
    SCENARIOS.append(Sc('abstract/sub/%s/%s' % (_c, ''.join(_ov)), lambda d, c=_c, ov=_ov: _abstract(d, c, ov), ('P15',)))


# inherited constructors, overloads of the base -----------------------------------
def _gen(m, made):
    from pybindgen import param
    k = base(m.add_class('IB'))
    k.add_constructor([])
    k.add_copy_constructor()
    k.add_method('o', 'int', [param('int', 'k')])
    k.add_method('o', 'int', [param('int', 'k'), param('int', 'l')])
    k.add_method('p', 'int', [param('int', 'k')], is_static=True)
    c = m.add_class('IC', parent=k)
    c.inherit_default_constructors()
    c.add_method('o', 'int', [param('std::string', 's')])
    c.add_method('o', 'int', [param('int', 'k')])
    e = m.add_class('ID', parent=c)
    e.inherit_default_constructors()
    # deprecated overload
    e.add_method('o', 'int', [param('bool', 'b'), param('bool', 'c'), param('bool', 'd')], deprecated=True)


FTS.append(Ft(['IB'], '''
struct IB { OBJ(IB, virtual) IB() : v(11), id(vh_id()) { live++; } int o(int k) { vh_ev("IB::o1"); vh_i(id); vh_i(k); return g("IB::o1.r"); }
  int o(int k, int l) { vh_ev("IB::o2"); vh_i(id); vh_i(k); vh_i(l); return g("IB::o2.r"); }
  static int p(int k) { vh_ev("IB::p"); vh_i(k); return g("IB::p.r"); } };
struct IC : IB { IC() {} IC(const IC &o) : IB(o) {} using IB::o; int o(std::string s) { vh_ev("IC::os"); vh_i(id); vh_ss(s); return g("IC::os.r"); }
  int o(int k) { vh_ev("IC::o1"); vh_i(id); vh_i(k); return g("IC::o1.r"); } };
struct ID : IC { ID() {} ID(const ID &o) : IC(o) {} using IC::o; int o(bool b, bool c, bool d) { vh_ev("ID::o3"); vh_i(id); vh_i(b); vh_i(c); vh_i(d); return g("ID::o3.r"); } };
''', '', _gen))


def _inherit(d, c):
    t = attr(d, c)
    o = ok(d, d.call(t, []), 'the inherited default constructor')
    d.require(d.type_is(o, t) and d.eq(field(d, o), 11), 'the inherited default constructor makes another object')
    d.require(d.setattr(o, 'v', d.int(77)), 'an attribute cannot be set')
    o2 = ok(d, d.call(t, [o]), 'the inherited copy constructor')
    d.require(d.type_is(o2, t) and d.eq(field(d, o2), 77) and not d.decide(d.eq(ident(d, o), ident(d, o2))), 'the inherited copy constructor makes no copy')
    k, ko = num(d, 'k')
    fails(d, d.call(t, [ko]), 'TypeError', 'a constructor that is not inherited')
    if c != 'IB':
        fails(d, d.call(t, [ok(d, d.call(attr(d, 'IB'), []))]), 'TypeError', 'the copy constructor with an instance of the base')
    d.events()


for _c in ('IC', 'ID'):
    SCENARIOS.append(Sc('inherit/ctor/' + _c, lambda d, c=_c: _inherit(d, c), ('P20', 'P10')))


def _overloads(d, c):
    o = ok(d, d.call(attr(d, c), []))
    i = ident(d, o)
    d.events()
    how = d.choose('how', 6)
    k, ko = num(d, 'k')
    if how == 0:
        r = d.callm(o, 'o', ko)
        if c == 'ID':           # hidden by the overload of the derived class
            fails(d, r, 'TypeError')
            return silent(d)
        ran(d, c + '::o1', [i, k])
        isint(d, r, res(d, c + '::o1.r'))
    elif how == 1:
        l, lo = num(d, 'l')
        r = d.callm(o, 'o', ko, lo)
        if c != 'IB':
            fails(d, r, 'TypeError')
            return silent(d)
        ran(d, 'IB::o2', [i, k, l])
        isint(d, r, res(d, 'IB::o2.r'))
    elif how == 2:
        r = d.callm(o, 'o', d.str(b'ab'))
        if c != 'IC':
            fails(d, r, 'TypeError')
            return silent(d)
        e = d.events()
        d.require(len(e) == 1 and e[0][0] == 'IC::os' and d.eq(e[0][2][0], i), 'another overload runs')
        isint(d, r, res(d, 'IC::os.r'))
    elif how == 3:
        r = d.callm(o, 'o', ko, ko, ko)
        if c != 'ID':
            fails(d, r, 'TypeError')
            return silent(d)
        if r is None:
            # the warning became an exception
            d.require(d.xname == 'DeprecationWarning', 'the call fails with %s' % d.xname)
            return silent(d)
        b = 1 if d.decide(d.ne0(k)) else 0
        ran(d, 'ID::o3', [i, b, b, b])
        isint(d, r, res(d, 'ID::o3.r'))
    elif how == 4:
        fails(d, d.callm(o, 'o', d.none()), 'TypeError')
        silent(d)
    else:
        r = ok(d, d.callm(o, 'p', ko), 'a static method of the base')
        ran(d, 'IB::p', [k])
        isint(d, r, res(d, 'IB::p.r'))


for _c in ('IB', 'IC', 'ID'):
    SCENARIOS.append(Sc('inherit/overload/' + _c, lambda d, c=_c: _overloads(d, c), ('P11', 'P20')))


# functions as constructors, classes that cannot be constructed -----------------------
def _gen(m, made):
    from pybindgen import param, retval, ReturnValue, Parameter
    k = m.add_class('FC')
    k.add_instance_attribute('v', 'int')
    k.add_method('ident', 'int', [], is_const=True)
    k.add_function_as_constructor('make_fc', ReturnValue.new('FC*', caller_owns_return=True), [param('int', 'k'), param('int', 'l', default_value='4')])
    k.add_function_as_method('fc_twice', 'int', [param('FC&', 'x'), param('int', 'k')], custom_name='twice')
    n = m.add_class('NC')
    n.add_instance_attribute('v', 'int')
    n.add_method('ident', 'int', [], is_const=True)
    n.set_cannot_be_constructed('made by the factory only')
    m.add_function('NC_get', retval('NC*', caller_owns_return=True), [])
    m.add_function('NC_see', 'int', [param('NC&', 'x')])


FTS.append(Ft(['FC', 'NC'], '''
struct FC { OBJ(FC, ) }; FC *make_fc(int k, int l); int fc_twice(FC &x, int k);
struct NC { OBJ(NC, ) }; NC *NC_get(); int NC_see(NC &x);
''', '''FC *make_fc(int k, int l) { vh_ev("make_fc"); vh_i(k); vh_i(l); return new FC(k); }
int fc_twice(FC &x, int k) { vh_ev("fc_twice"); vh_i(x.id); vh_i(k); return g("fc_twice.r"); }
NC *NC_get() { return new NC(g("NC_get.v")); } int NC_see(NC &x) { vh_ev("NC_see"); vh_i(x.id); return g("NC_see.r"); }''', _gen))


@sc('function-constructor', 'P07', 'P10')
def _(d):
    v, h = num(d, 'v')
    t = attr(d, 'FC')
    k, ko = num(d, 'k')
    how = d.choose('how', 3)
    if how == 2:
        fails(d, d.call(t, [d.none()]), 'TypeError')
        return silent(d)
    o = ok(d, d.call(t, [h, ko] if how else [h]), 'a function as constructor')
    ran(d, 'make_fc', [v, k if how else 4])
    d.require(d.type_is(o, t) and d.eq(field(d, o), v), 'the object has the wrong value')
    i = ident(d, o)
    r = ok(d, d.callm(o, 'twice', ko), 'a function as method')
    ran(d, 'fc_twice', [i, k])
    isint(d, r, res(d, 'fc_twice.r'))


@sc('not-constructible', 'P09', 'P10')
def _(d):
    t = attr(d, 'NC')
    v, h = num(d, 'v')
    for a in ([], [h]):
        fails(d, d.call(t, a), 'TypeError', 'the constructor of a class without constructor')
        silent(d)
    o = ok(d, d.callm(d.module(), 'NC_get'))
    d.require(d.type_is(o, t) and d.eq(field(d, o), res(d, 'NC_get.v')), 'the object has the wrong value')
    i = ident(d, o)
    r = ok(d, d.callm(d.module(), 'NC_see', o))
    ran(d, 'NC_see', [i])
    isint(d, r, res(d, 'NC_see.r'))


# templates, custom names, foreign namespaces, aliases ------------------------------------
def _gen(m, made):
    from pybindgen import param, retval
    for t, n in (('int', None), ('short', 'TShort')):
        k = m.add_class('TC', template_parameters=[t], **(dict(custom_name=n) if n else {}))
        k.add_constructor([param(t, 'x')])
        k.add_copy_constructor()
        k.add_instance_attribute('x', t)
        k.add_method('get', 'int', [])
        k.add_method('tm', 'int', [param('int', 'k')], template_parameters=['int'])
        k.add_method('tm', 'int', [param('int', 'k')], template_parameters=['long'], custom_name='tl')
        m.add_function('tc_take', 'int', [param('TC< %s > &' % t, 'x')], custom_name='tc_' + t)
        m.add_function('tc_make_' + t, retval('TC<%s>' % t), [param(t, 'k')])
    m.add_function('tf', 'int', [param('int', 'k')], template_parameters=['int'])
    m.add_function('tf', 'int', [param('int', 'k')], template_parameters=['char', 'short'], custom_name='tf2')
    m.add_function('ff', 'int', [param('int', 'k')], foreign_cpp_namespace='Far::Away', custom_name='far_ff')
    f = base(m.add_class('FK', foreign_cpp_namespace='Far'))
    f.add_copy_constructor()
    m.add_function('fk', 'int', [param('Far::FK&', 'x')])
    m.add_function('fkv', retval('Far::FK'), [])
    ns = m.add_cpp_namespace('Near')
    ns.add_typedef(f, 'NK')
    ns.add_function('nk', 'int', [param('Near::NK*', 'x', transfer_ownership=False)])
    ns.add_function('nk', 'int', [param('int', 'x')])
    c = base(ns.add_class('CN', custom_name='Custom'))
    i = base(c.add_class('Inner'))
    i.add_copy_constructor()
    c.add_enum('Mode', ['M_A', ('M_B', '::Near::CN::M_B'), 'M_C'])
    c.add_method('mode', 'Near::CN::Mode', [param('Near::CN::Mode', 'm')])
    c.add_method('inner', 'int', [param('Near::CN::Inner&', 'i')])
    ns.add_enum('Lev', ['L_LO', ('L_HI', '::Near::L_HI')], values_prefix='')
    ns.add_function('lev', 'Near::Lev', [param('Near::Lev', 'l')])
    e = m.add_exception('FE', foreign_cpp_namespace='Far')
    e2 = ns.add_exception('NE', outer_class=c)
    m.add_function('fthrow', 'int', [param('int', 'k')], throw=[e, e2])


FTS.append(Ft(['TC<int>', 'TC<short>', 'Far::FK', 'Near::CN', 'Near::CN::Inner'], '''
template <class T> struct TC { T x; int id; static int live; TC(T k) : x(k), id(vh_id()) { live++; } TC(const TC &o) : x(o.x), id(vh_id()) { live++; } ~TC() { live--; }
  int get() { vh_ev("TC::get"); vh_i(id); vh_i((int) sizeof(T)); return g("TC::get.r"); }
  template <class U> int tm(U k) { vh_ev("TC::tm"); vh_i(id); vh_i((int) sizeof(U)); vh_i(k); return g("TC::tm.r"); } };
template <class T> int tc_take(TC<T> &x) { vh_ev("tc_take"); vh_i(x.id); vh_i(x.x); return (int) sizeof(T); }
static inline int tc_take_x() { return 0; }
TC<int> tc_make_int(int k); TC<short> tc_make_short(short k);
template <class T> int tf(int k) { vh_ev("tf"); vh_i((int) sizeof(T)); vh_i(k); return g("tf.r"); }
template <class T, class U> int tf(int k) { vh_ev("tf2"); vh_i((int) sizeof(T)); vh_i((int) sizeof(U)); vh_i(k); return g("tf2.r"); }
namespace Far { struct FK { OBJ(FK, ) }; struct FE {}; namespace Away { int ff(int k); } }
int fk(Far::FK &x); Far::FK fkv(); int fthrow(int k);
namespace Near { typedef Far::FK NK; int nk(NK *x); int nk(int x);
  struct CN { OBJ(CN, ) struct Inner { OBJ(Inner, ) }; struct NE {}; enum Mode { M_A = 3, M_B = 8, M_C = 1000000 };
    Mode mode(Mode m) { vh_ev("CN::mode"); vh_i(id); vh_i((int) m); return (Mode) g("CN::mode.r"); }
    int inner(Inner &i) { vh_ev("CN::inner"); vh_i(id); vh_i(i.id); i.v = g("CN::inner.v"); return g("CN::inner.r"); } };
  enum Lev { L_LO = -5, L_HI = 60 }; Lev lev(Lev l); }
''', '''
TC<int> tc_make_int(int k) { return TC<int>(k); } TC<short> tc_make_short(short k) { return TC<short>(k); }
int Far::Away::ff(int k) { vh_ev("ff"); vh_i(k); return g("ff.r"); }
int fk(Far::FK &x) { vh_ev("fk"); vh_i(x.id); vh_i(x.v); return g("fk.r"); } Far::FK fkv() { return Far::FK(g("fkv.v")); }
int fthrow(int k) { vh_ev("fthrow"); vh_i(k); switch (vh_choose("fthrow.t", 3)) { case 1: throw Far::FE(); case 2: throw Near::CN::NE(); } return g("fthrow.r"); }
namespace Near { int nk(NK *x) { vh_ev("nkp"); vh_i(x->id); return g("nkp.r"); } int nk(int x) { vh_ev("nki"); vh_i(x); return g("nki.r"); }
Lev lev(Lev l) { vh_ev("lev"); vh_i((int) l); return (Lev) g("lev.r"); } }''', _gen))


def _template(d, name, t, size, lo, hi):
    c = attr(d, name)
    v, h = num(d, 'v', lo, hi)
    o = ok(d, d.call(c, [h])) if d.choose('how', 2) else ok(d, d.callm(d.module(), 'tc_make_' + t, h))
    d.require(d.type_is(o, c), 'the object is not an instance of the template class')
    d.require(d.eq(d.ival(d.getattr(o, 'x')), v), 'the attribute has the wrong value')
    k, ko = num(d, 'k')
    d.events()
    r = ok(d, d.callm(o, 'get'))
    e = d.events()
    d.require(len(e) == 1 and e[0][0] == 'TC::get' and d.eq(e[0][2][1], size), 'the method of another instantiation runs')
    i = e[0][2][0]
    isint(d, r, res(d, 'TC::get.r'))
    for n, s in (('tm__lt__int__gt__', 4), ('tl', 8)):
        m = d.getattr(o, n)
        if m is None:
            m = d.getattr(o, 'tm')
        r = ok(d, d.call(m, [ko]))
        ran(d, 'TC::tm', [i, s, k])
    r = ok(d, d.callm(d.module(), 'tc_' + t, o))
    ran(d, 'tc_take', [i, v])
    isint(d, r, size)
    other = 'TShort' if size == 4 else 'TC__Int'
    x = ok(d, d.call(attr(d, other), [d.int(3)]))
    fails(d, d.callm(d.module(), 'tc_' + t, x), 'TypeError', 'an instance of another instantiation')
    silent(d)


SCENARIOS.append(Sc('template/int', lambda d: _template(d, 'TC__Int', 'int', 4, -(1 << 31), (1 << 31) - 1), ('P07', 'P20')))
SCENARIOS.append(Sc('template/short', lambda d: _template(d, 'TShort', 'short', 2, -(1 << 15), (1 << 15) - 1), ('P07', 'P20')))


@sc('names', 'P07', 'P21')
def _(d):
    k, ko = num(d, 'k')
    how = d.choose('how', 9)
    if how == 0:
        r, ev, vals = d.callm(d.module(), 'tf__lt__int__gt__', ko), 'tf', [4, k]
    elif how == 1:
        r, ev, vals = d.callm(d.module(), 'tf2', ko), 'tf2', [1, 2, k]
    elif how == 2:
        r, ev, vals = d.callm(d.module(), 'far_ff', ko), 'ff', [k]
    elif how == 3:
        o, v = new(d, 'FK')
        i = ident(d, o)
        r, ev, vals = d.callm(d.module(), 'fk', o), 'fk', [i, v]
    elif how == 4:
        o = ok(d, d.callm(d.module(), 'fkv'))
        d.require(d.type_is(o, attr(d, 'FK')) and d.eq(field(d, o), res(d, 'fkv.v')), 'the returned object is wrong')
        i = ident(d, o)
        r, ev, vals = d.call(attr(d, 'Near.nk'), [o]), 'nkp', [i]
    elif how == 5:
        d.require(d.is_(attr(d, 'Near.NK'), attr(d, 'FK')), 'the typedef is not the class')
        r, ev, vals = d.call(attr(d, 'Near.nk'), [ko]), 'nki', [k]
    elif how == 6:
        o, v = new(d, 'Near.Custom')
        i = ident(d, o)
        m, mo = num(d, 'm')
        r, ev, vals = d.callm(o, 'mode', mo), 'CN::mode', [i, m]
    elif how == 7:
        r, ev, vals = d.call(attr(d, 'Near.lev'), [ko]), 'lev', [k]
    else:
        o, v = new(d, 'Near.Custom')
        n, w = new(d, 'Near.Custom.Inner', 'w')
        i, j = ident(d, o), ident(d, n)
        r, ev, vals = d.callm(o, 'inner', n), 'CN::inner', [i, j]
        d.require(d.eq(field(d, n), res(d, 'CN::inner.v')), 'the inner object has the wrong value')
    ok(d, r)
    ran(d, ev, vals)
    isint(d, r, res(d, ev + '.r'))


@sc('enums', 'P18', 'P21')
def _(d):
    for p, v in (('Near.Custom.M_A', 3), ('Near.Custom.M_B', 8), ('Near.Custom.M_C', 1000000), ('Near.L_LO', -5), ('Near.L_HI', 60)):
        isint(d, attr(d, p), v, 'the constant ' + p)


@sc('foreign-exceptions', 'P13')
def _(d):
    k, ko = num(d, 'k')
    r = d.callm(d.module(), 'fthrow', ko)
    ran(d, 'fthrow', [k])
    t = d.made('fthrow.t#0')
    if t == 0:
        return isint(d, r, res(d, 'fthrow.r'))
    d.require(r is None, 'the exception is lost')
    d.require(d.exc_type_is(attr(d, 'FE' if t == 1 else 'Near.Custom.NE')), 'another exception is raised')


# deprecated, custom wrappers, hooks -----------------------------------------------------
BODY = '''
PyObject *%(f)s(%(self)sPyObject *args, PyObject *kwargs, PyObject **return_exception)
{
    int k; const char *keywords[] = {"k", NULL};
    if (!PyArg_ParseTupleAndKeywords(args, kwargs, (char *) "i", (char **) keywords, &k)) {
        PyObject *t, *tb;
        PyErr_Fetch(&t, return_exception, &tb);
        Py_XDECREF(t); Py_XDECREF(tb);
        return NULL;
    }
    %(call)s
    return Py_BuildValue((char *) "i", g("%(f)s.r"));
}
'''


def _gen(m, made):
    from pybindgen import param
    m.add_function('old1', 'int', [param('int', 'k')], deprecated=True)
    m.add_function('old2', 'int', [param('int', 'k')], deprecated='use "new" 100% of the time' if False else 'use new')
    k = base(m.add_class('DP'))
    k.add_method('old', 'int', [param('int', 'k')], deprecated='gone') if False else k.add_method('old', 'int', [param('int', 'k')])
    m.add_custom_function_wrapper('cf', '_cf', BODY % dict(f='_cf', self='PyObject *,', call='cfn(k);'))
    k.add_custom_method_wrapper('cm', '_cm', BODY % dict(f='_cm', self='PyDP *self, ', call='self->obj->old(k);'))
    h = base(m.add_class('HK', allow_subclassing=True))
    h.add_method('f', 'int', [param('int', 'k')], is_virtual=True)

    def hook(helper):
        helper.add_custom_method('virtual int secret(int k);', 'int %s::secret(int k) { vh_ev("secret"); vh_i(k); return f(k); }' % helper.name)
        helper.add_post_generation_code('/* after the helper */')
    h.add_helper_class_hook(hook)
    m.add_function('HK_secret', 'int', [param('HK&', 'x'), param('int', 'k')])
    s = m.add_class('HS', parent=h)
    s.add_constructor([param('int', 'x')])
    s.add_method('f', 'int', [param('int', 'k')], is_virtual=True)


FTS.append(Ft(['DP', 'HK'], '''
int old1(int k); int old2(int k); void cfn(int k);
struct DP { OBJ(DP, ) int old(int k) { vh_ev("DP::old"); vh_i(id); vh_i(k); return g("DP::old.r"); } };
struct HK { OBJ(HK, virtual) virtual int f(int k) { vh_ev("HK::f"); vh_i(id); vh_i(k); return g("HK::f.r"); } virtual int secret(int k) { return k; } };
struct HS : HK { HS(int x) : HK(x) {} virtual int f(int k) { vh_ev("HS::f"); vh_i(id); vh_i(k); return g("HS::f.r"); } };
int HK_secret(HK &x, int k);
''', '''int old1(int k) { vh_ev("old1"); vh_i(k); return g("old1.r"); } int old2(int k) { vh_ev("old2"); vh_i(k); return g("old2.r"); }
void cfn(int k) { vh_ev("cfn"); vh_i(k); } int HK_secret(HK &x, int k) { return x.secret(k); }''', _gen))


def _deprecated(d, n):
    k, ko = num(d, 'k')
    r = d.callm(d.module(), n, ko)
    evs = d.events()
    ws = [e for e in evs if e[0] == 'warning']
    es = [e for e in evs if e[0] != 'warning']
    if r is None:
        d.require(d.xname == 'DeprecationWarning' and not es, 'the call fails (%s)' % d.xname)
        return
    d.require(len(es) == 1 and es[0][0] == n and d.eq(es[0][2][0], k), 'the function does not run once')
    isint(d, r, res(d, n + '.r'))
    fails(d, d.callm(d.module(), n, d.none()), 'TypeError')


for _n in ('old1', 'old2'):
    SCENARIOS.append(Sc('deprecated/' + _n, lambda d, n=_n: _deprecated(d, n), ('P07', 'P09')))


@sc('custom-wrappers', 'P07', 'P09')
def _(d):
    k, ko = num(d, 'k')
    if d.choose('how', 2):
        r = ok(d, d.callm(d.module(), 'cf', ko))
        ran(d, 'cfn', [k])
        isint(d, r, res(d, '_cf.r'))
        fails(d, d.callm(d.module(), 'cf', d.none()), 'TypeError')
    else:
        o, v = new(d, 'DP')
        i = ident(d, o)
        r = ok(d, d.callm(o, 'cm', ko))
        ran(d, 'DP::old', [i, k])
        isint(d, r, res(d, '_cm.r'))
        fails(d, d.callm(o, 'cm', d.none()), 'TypeError')
    silent(d)


@sc('helper-hook', 'P15')
def _(d):
    c = ('HK', 'HS')[d.choose('c', 2)]
    k, ko = num(d, 'k')
    o, v = new(d, c)
    r = ok(d, d.callm(d.module(), 'HK_secret', o, ko))
    silent(d)
    isint(d, r, k)
    y, yo = num(d, 'y')

    def f(me, a):
        d.require(d.eq(d.ival(a), k), 'the override gets another value')
        return d.int(y)
    p = ok(d, d.call(d.subclass(attr(d, c), 'Sub', {'f': f}), [yo]))
    r = ok(d, d.callm(d.module(), 'HK_secret', p, ko))
    ran(d, 'secret', [k])
    isint(d, r, y)


def header():
    return feat.header(FTS)


def source():
    return feat.source(FTS)


def generate(outfile):
    feat.generate('m17', FTS, outfile)
