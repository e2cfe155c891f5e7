"""classes with virtual methods, overridden in Python: description, C++ code, generator calls.
For each virtual method m of class K the library has drv_K_m(K &x), which calls x.m with fresh values and logs what comes back."""
import gen
from gen import P


class VF(object):
    """virtual method; vis public/protected/private; how the driver calls it: plain, thread (no lock held), unblock"""
    def __init__(self, name, ret='void', params=(), pure=False, vis='public', const=False, call='plain', **kw):
        self.name, self.ret, self.params, self.pure, self.vis, self.const, self.call, self.kw = name, ret, list(params), pure, vis, const, call, kw
        self.rets = P(ret, 'r')
        self.cls = None


class VC(object):
    def __init__(self, name, methods, parent=None, impl=(), redeclare=True):
        """impl: methods of the parent that the C++ class overrides (declared to the generator if redeclare)"""
        self.name, self.methods, self.parent, self.redeclare = name, methods, parent, redeclare
        self.impl = list(impl)
        for m in methods:
            m.cls = self

    def all(self):
        own = list(self.methods)
        return own + [m for m in (self.parent.all() if self.parent else [])]

    def provider(self, m):
        """class whose implementation of m an instance without override runs"""
        if m.cls is self or m.name in self.impl:
            return self
        return self.parent.provider(m)


def psig(m):
    return ', '.join('%s %s' % (p.ctype, p.name) for p in m.params)


def msig(m, scope=''):
    return '%s %s%s(%s)%s' % (m.ret, scope, m.name, psig(m), ' const' if m.const else '')


def impl_body(c, m):
    t = '%s::%s' % (c.name, m.name)
    o = ['vh_ev("%s"); vh_i(this->id);' % t]
    for p in m.params:
        if p.is_in():
            o.append(gen.logv(p, '(*%s)' % p.name if p.mode == 'ptr' else p.name))
    for p in m.params:
        if p.is_out():
            o.append('%s = %s;' % ('(*%s)' % p.name if p.mode == 'ptr' else p.name, gen.newv(p, '%s.%s' % (t, p.name))))
    if m.ret != 'void':
        o.append('return %s;' % gen.newv(m.rets, t + '.r'))
    return '\n  '.join(o)


def drv(c, m):
    t = 'drv_%s_%s' % (c.name, m.name)
    o = []
    for p in m.params:
        o.append('%s %s = %s;' % ({'char*': 'char *', 'const char*': 'const char *'}.get(p.ctype, p.base), p.name, gen.newv(p, '%s.%s' % (t, p.name))))
    if m.call == 'thread':
        o.append('vh_gil_release();')
    a = ', '.join('&' + p.name if p.mode == 'ptr' else p.name for p in m.params)
    o.append('%sme.call_%s(%s);' % ('' if m.ret == 'void' else m.ret + ' r = ', m.name, a) if m.vis != 'public' else
             '%sme.%s(%s);' % ('' if m.ret == 'void' else m.ret + ' r = ', m.name, a))
    o.append('vh_ev("%s");' % t)
    if m.call == 'thread':
        o.append('vh_gil_restore();')
    if m.ret != 'void':
        o.append(gen.logv(m.rets, 'r'))
    for p in m.params:
        if p.is_out():
            o.append(gen.logv(p, p.name))
    return 'void %s(%s &me) {\n  %s\n}' % (t, c.name, '\n  '.join(o))


def header(classes, extra=''):
    o = ['#ifndef LIB_H', '#define LIB_H', '#include "vh.h"', extra]
    for c in classes:
        o.append('struct %s%s {' % (c.name, ' : %s' % c.parent.name if c.parent else ''))
        if not c.parent:
            o.append('  int v; int id; static int live; %s(int x = 0) : v(x), id(vh_id()) { live++; } virtual ~%s() { v = -77; live--; } int ident() const { return id; }' % (c.name, c.name))
        else:
            o.append('  int w; %s(int x = 0) : %s(x), w(x) {}' % (c.name, c.parent.name))
        for m in c.methods:
            if m.vis != 'public':
                o.append('  %s call_%s(%s)%s { %s%s(%s); }' % (m.ret, m.name, psig(m), ' const' if m.const else '', '' if m.ret == 'void' else 'return ', m.name,
                                                              ', '.join(p.name for p in m.params)))
            o.append('%s: virtual %s%s; public:' % (m.vis, msig(m), ' = 0' if m.pure else ''))
        for m in (c.parent.all() if c.parent else []):
            if m.name in c.impl:
                o.append('%s: virtual %s; public:' % (m.vis, msig(m)))
        o.append('};')
        for m in c.all():
            o.append('void drv_%s_%s(%s &me);' % (c.name, m.name, c.name))
    o.append('#endif')
    return '\n'.join(o) + '\n'


def source(classes):
    o = ['#include "lib.h"', gen.RT]
    for c in classes:
        if not c.parent:
            o.append('int %s::live;' % c.name)
        for m in c.methods:
            if not m.pure:
                o.append('%s {\n  %s\n}' % (msig(m, c.name + '::'), impl_body(c, m)))
        for m in (c.parent.all() if c.parent else []):
            if m.name in c.impl:
                o.append('%s {\n  %s\n}' % (msig(m, c.name + '::'), impl_body(c, m)))
        for m in c.all():
            o.append(drv(c, m))
    o.append('extern "C" void vh_reset() { delete g_str; g_str = NULL; }')
    o.append('extern "C" int vh_live() { return %s; }' % ' + '.join('%s::live' % c.name for c in classes if not c.parent))
    return '\n'.join(o) + '\n'


def generate(name, classes, outfile, enums=()):
    from pybindgen import Module, FileCodeSink, param
    m = Module(name)
    m.add_include('"lib.h"')
    for e in enums:
        m.add_enum(e, gen.ENUMS[e][1])
    made = {}
    for c in classes:
        kw = dict(allow_subclassing=True) if not c.parent else dict(parent=made[c.parent.name])
        made[c.name] = k = m.add_class(c.name, **kw)
    for c in classes:
        k = made[c.name]
        k.add_constructor([param('int', 'x')])
        if not c.parent:
            k.add_instance_attribute('v', 'int')
            k.add_method('ident', 'int', [], is_const=True)
        ms = list(c.methods)
        if c.parent and c.redeclare:
            ms += [f for f in c.parent.all() if f.name in c.impl]
        for f in ms:
            k.add_method(f.name, gen.pret(f), gen.pparams(f), is_virtual=True, is_const=f.const, is_pure_virtual=f.pure and f.cls is c, visibility=f.vis)
    for c in classes:
        for f in c.all():
            m.add_function('drv_%s_%s' % (c.name, f.name), None, [param(c.name + '&', 'me')], unblock_threads=f.call == 'unblock')
    with open(outfile, 'w') as o:
        m.generate(FileCodeSink(o))
