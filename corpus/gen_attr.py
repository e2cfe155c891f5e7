"""wrapped attributes: description, C++ code, generator calls.
Every class has K_dump(K &), which logs all instance attributes (of the parents first) and all static attributes"""
import gen
from gen import P

ENUM = gen.ENUMS['Col'][0]


class At(object):
    """kind: scalar, A (object by value), W (shared pointer), Aref (pointer, not owned); how: plain, get (getter method), getset (both),
    free (getter and setter functions)"""
    def __init__(self, name, ctype, init, static=False, const=False, how='plain', pyname=None, kind='scalar'):
        self.name, self.ctype, self.init, self.static, self.const, self.how, self.kind = name, ctype, init, static, const, how, kind
        self.pyname = pyname or name
        self.p = P(ctype, name) if kind == 'scalar' else None
        self.cls = None

    def storage(self):
        return 'x_' + self.name if self.how != 'plain' else self.name


class AC(object):
    def __init__(self, name, attrs, parent=None):
        self.name, self.attrs, self.parent = name, list(attrs), parent
        for a in attrs:
            a.cls = self

    def all(self):
        return (self.parent.all() if self.parent else []) + self.attrs


def log(a, e):
    if a.kind == 'A':
        return 'vh_i(%s.v); vh_i(%s.id);' % (e, e)
    if a.kind in ('W', 'Aref'):
        return 'if (!%s) { vh_i(-1); vh_i(-1); } else { vh_i(%s->v); vh_i(%s->id); }' % (e, e, e)
    return gen.logv(a.p, '(*%s)' % e if a.p.mode == 'ptr' else e)


def fresh(a, tag):
    return gen.newv(a.p, tag)


def cls_src(c):
    n = c.name
    h = ['struct %s%s {' % (n, ' : %s' % c.parent.name if c.parent else '')]
    if not c.parent:
        h.append('  int id; int ident() const { return id; }')
    s = []
    for a in c.attrs:
        if a.static:
            h.append('  static %s %s;' % (a.ctype, a.name))
            s.append('%s %s::%s%s;' % (a.ctype, n, a.name, ' = ' + a.init if a.init else ''))
        else:
            h.append('  %s%s %s;' % (a.ctype, '' if a.ctype[-1] == '*' else ' ', a.storage()))
        st = a.storage()
        at = '%s::%s' % (n, a.name)
        if a.how in ('get', 'getset'):
            h.append('  %s get_%s() const;' % (a.ctype, a.name))
            s.append('%s %s::get_%s() const { vh_ev("%s.get"); vh_i(id); return %s; }' % (a.ctype, n, a.name, at, st))
        if a.how == 'getset':
            h.append('  void set_%s(%s v);' % (a.name, a.ctype))
            s.append('void %s::set_%s(%s v) { vh_ev("%s.set"); vh_i(id); %s %s = v; }' % (n, a.name, a.ctype, at, log(a, 'v'), st))
        if a.how == 'free':
            s.append('%s get_%s_%s(%s &k) { vh_ev("%s.get"); vh_i(k.id); return k.%s; }' % (a.ctype, n, a.name, n, at, st))
            s.append('void set_%s_%s(%s &k, %s v) { vh_ev("%s.set"); vh_i(k.id); %s k.%s = v; }' % (n, a.name, n, a.ctype, at, log(a, 'v'), st))
    ini = [] if c.parent else ['id(vh_id())']
    ini += ['%s(%s)' % (a.storage(), a.init) for a in c.attrs if not a.static]
    h.append('  %s()%s {}' % (n, ' : ' + ', '.join(ini) if ini else ''))
    h.append('};')
    h.append('void %s_dump(%s &k);' % (n, n))
    for a in c.attrs:
        if a.how == 'free':
            h.append('%s get_%s_%s(%s &k); void set_%s_%s(%s &k, %s v);' % (a.ctype, n, a.name, n, n, a.name, n, a.ctype))
        h.append('void poke_%s_%s(%s &k);' % (n, a.name, n))
        e = '%s::%s' % (n, a.name) if a.static else 'k.' + a.storage()
        t = 'poke_%s_%s' % (n, a.name)
        if a.kind == 'A':
            b = '%s.v = (int) vh_int("%s", 32);' % (e, t)
        elif a.kind == 'W':
            b = 'if (vh_choose("%s.null", 2)) %s = NULL; else { int x = (int) vh_int("%s", 32); %s = std::make_shared<W>(x); }' % (t, e, t, e)
        elif a.kind == 'Aref':
            b = 'if (vh_choose("%s.null", 2)) %s = NULL; else { int x = (int) vh_int("%s", 32); the_a.v = x; %s = &the_a; }' % (t, e, t, e)
        else:
            b = '%s = %s;' % (e, fresh(a, t))
        s.append('void %s(%s &k) { %s }' % (t, n, b))
    s.append('void %s_dump(%s &k) {\n  vh_ev("%s_dump");' % (n, n, n))
    for a in c.all():
        e = '%s::%s' % (a.cls.name, a.name) if a.static else 'k.' + a.storage()
        s.append('  ' + log(a, e))
    s.append('}')
    return '\n'.join(h), '\n'.join(s)


OBJ = '''struct A { int v; int id; static int live; A(int x = 0) : v(x), id(vh_id()) { live++; } A(const A &o) : v(o.v), id(vh_id()) { live++; }
  A &operator=(const A &o) { v = o.v; return *this; } ~A() { v = -77; live--; } int ident() const { return id; } };
struct W { int v; int id; static int live; W(int x = 0) : v(x), id(vh_id()) { live++; } W(const W &o) : v(o.v), id(vh_id()) { live++; }
  ~W() { v = -77; live--; } int ident() const { return id; } };
'''


def header(classes):
    return '\n'.join(['#ifndef LIB_H', '#define LIB_H', '#include "vh.h"', '#include <memory>', ENUM, OBJ] + [cls_src(c)[0] for c in classes] + ['#endif']) + '\n'


def statics(classes):
    return [a for c in classes for a in c.attrs if a.static]


def source(classes):
    o = ['#include "lib.h"', gen.RT, 'int A::live; int W::live; static A the_a(5);']
    o += [cls_src(c)[1] for c in classes]
    rs = ' '.join(('%s::%s = %s;' % (a.cls.name, a.name, a.init or '""') if a.kind == 'scalar' else '%s::%s.v = 0;' % (a.cls.name, a.name)) for a in statics(classes) if not a.const)
    o.append('extern "C" void vh_reset() { delete g_str; g_str = NULL; %s }' % rs)
    n = sum(1 for a in statics(classes) if a.kind == 'A') + 1
    o.append('extern "C" int vh_live() { return A::live + W::live - %d; }' % n)
    return '\n'.join(o) + '\n'


def retv(a):
    from pybindgen import retval
    if a.kind == 'Aref':
        return retval('A*', reference_existing_object=True)
    if a.kind == 'W':
        return retval('std::shared_ptr<W>')
    return retval(a.ctype)


def generate(name, classes, outfile):
    from pybindgen import Module, FileCodeSink, param
    from pybindgen.typehandlers.smart_ptr import StdSharedPtr
    m = Module(name)
    m.add_include('"lib.h"')
    m.add_enum('Col', ['RED', 'BLUE'])
    for n, kw in (('A', {}), ('W', dict(memory_policy=StdSharedPtr('W')))):
        k = m.add_class(n, **kw)
        k.add_constructor([param('int', 'x')])
        k.add_copy_constructor()
        k.add_instance_attribute('v', 'int')
        k.add_method('ident', 'int', [], is_const=True)
    made = {}
    for c in classes:
        k = made[c.name] = m.add_class(c.name, **(dict(parent=made[c.parent.name]) if c.parent else {}))
        k.add_constructor([])
        if not c.parent:
            k.add_method('ident', 'int', [], is_const=True)
        for a in c.attrs:
            kw = {}
            if a.static:
                k.add_static_attribute(a.name, retv(a), is_const=a.const)
                continue
            if a.how == 'free':
                k.add_custom_instance_attribute(a.name, retv(a), 'get_%s_%s' % (c.name, a.name), is_const=a.const,
                                                setter=None if a.const else 'set_%s_%s' % (c.name, a.name), custom_name=a.pyname)
                continue
            if a.how in ('get', 'getset'):
                kw['getter'] = 'get_' + a.name
            if a.how == 'getset' and not a.const:
                kw['setter'] = 'set_' + a.name
            if a.pyname != a.name:
                kw['custom_name'] = a.pyname
            k.add_instance_attribute(a.name, retv(a), is_const=a.const, **kw)
        m.add_function('%s_dump' % c.name, None, [param(c.name + '&', 'k')])
        for a in c.attrs:
            if not (a.const and a.static):
                m.add_function('poke_%s_%s' % (c.name, a.name), None, [param(c.name + '&', 'k')])
    with open(outfile, 'w') as o:
        m.generate(FileCodeSink(o))
