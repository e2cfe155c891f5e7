"""sequence, call and text protocols: description, C++ code, generator calls"""
import gen
from gen import F, P


class SQ(object):
    """slots: special method -> overloads in the order of registration (F objects, kw fn: a function with an implicit self parameter);
    text: has an output stream operator"""
    def __init__(self, name, slots={}, parent=None, text=False, sub=False, ns=None):
        self.name, self.slots, self.parent, self.text, self.sub, self.ns = name, slots, parent, text, sub, ns
        for py, fs in slots.items():
            for i, f in enumerate(fs):
                f.owner, f.py = self, py
                f.name = '%s.%s%d' % (name, py.strip('_'), i)
                f.cname = '%s%s%d' % (name + '_' if f.kw.get('fn') else 'm_', py.strip('_'), i)

    @property
    def full(self):
        return (self.ns + '::' if self.ns else '') + self.name

    def issub(self, o):
        return self is o or (self.parent is not None and self.parent.issub(o))

    def find(self, py):
        c = self
        while c is not None and py not in c.slots:
            c = c.parent
        return c.slots[py] if c is not None else None

    def has_text(self):
        return self.text or (self.parent is not None and self.parent.has_text())

    def funcs(self):
        return [f for py in sorted(self.slots) for f in self.slots[py]]


def M(ret, *types, **kw):
    return F('', ret, [P(t, 'p%d' % i) for i, t in enumerate(types)], **kw)


def ctypes(by, p):
    return 'const %s &%s' % (by[p.base].full, p.name) if p.base in by else '%s %s' % (p.ctype, p.name)


def sig(by, f, scope=''):
    ps = [ctypes(by, p) for p in f.params]
    if f.kw.get('fn'):
        ps.insert(0, '%s &self' % f.owner.full)
        scope = ''
    ret = by[f.ret].full if f.ret in by else f.ret
    return '%s %s%s(%s)%s' % (ret, scope, f.cname, ', '.join(ps), ' const' if f.kw.get('const') else '')


def body(by, f):
    o = ['vh_ev("%s"); vh_i(%sv);' % (f.name, 'self.' if f.kw.get('fn') else 'this->')]
    for p in f.params:
        o.append('vh_i(%s.v);' % p.name if p.base in by else gen.logv(p, p.name))
    if f.throw:
        o.append('switch (vh_choose("%s.throw", %d)) {' % (f.name, len(gen.throws(f)) + 1))
        for i, t in enumerate(gen.throws(f)):
            o.append('case %d: throw %s;' % (i + 1, gen.THROWN[t][0]))
        o.append('}')
    if f.kw.get('pyerr'):
        o.append('switch (vh_choose("%s.pe", 3)) { case 1: PyErr_SetString(PyExc_IndexError, "i"); return (%s) -1; case 2: PyErr_SetString(PyExc_ValueError, "v"); return (%s) -1; }' % (f.name, f.ret, f.ret))
    if f.ret in by:
        o.append('%s r; r.v = (int) vh_int("%s.r", 32); return r;' % (by[f.ret].full, f.name))
    elif f.ret != 'void':
        o.append('return %s;' % gen.newv(f.rets, f.name + '.r'))
    return '\n  '.join(o)


def header(classes):
    by = dict((c.name, c) for c in classes)
    o = ['#ifndef LIB_H', '#define LIB_H', '#include "vh.h"', '#include <ostream>', gen.EXC_SRC, 'extern int g_live;']
    for c in classes:
        d = ['struct %s%s {' % (c.name, ' : ' + c.parent.name if c.parent else '')]
        if c.parent:
            d.append('  explicit %s(int x = 0) : %s(x) {}' % (c.name, c.parent.name))
        else:
            d.append('  int v; explicit %s(int x = 0) : v(x) { g_live++; } %s(const %s &o) : v(o.v) { g_live++; } %s &operator=(const %s &o) { v = o.v; return *this; } ~%s() { v = -77; g_live--; }' % ((c.name,) * 6))
        d += ['  %s;' % sig(by, f) for f in c.funcs() if not f.kw.get('fn')]
        d.append('};')
        if c.text:
            d.append('std::ostream &operator<<(std::ostream &o, const %s &a);' % c.name)
        if c.ns:
            d = ['namespace %s {' % c.ns] + d + ['}']
        o += d
        o += ['%s;' % sig(by, f) for f in c.funcs() if f.kw.get('fn')]
    o.append('#endif')
    return '\n'.join(o) + '\n'


def source(classes):
    by = dict((c.name, c) for c in classes)
    o = ['#include "lib.h"', gen.RT, 'int g_live;']
    for c in classes:
        for f in c.funcs():
            o.append('%s { %s }' % (sig(by, f, c.full + '::'), body(by, f)))
        if c.text:
            ns = ('namespace %s {\n' % c.ns, '\n}') if c.ns else ('', '')
            o.append(ns[0] + 'std::ostream &operator<<(std::ostream &o, const %s &a) { vh_ev("%s.text"); vh_i(a.v); return o << vh_str("%s.t"); }' % (c.name, c.name, c.name) + ns[1])
    o.append('extern "C" void vh_reset() { delete g_str; g_str = NULL; }')
    o.append('extern "C" int vh_live() { return g_live; }')
    return '\n'.join(o) + '\n'


def generate(name, classes, outfile):
    from pybindgen import Module, FileCodeSink, param, retval
    by = dict((c.name, c) for c in classes)
    m = Module(name)
    m.add_include('"lib.h"')
    ex = gen.add_exceptions(m)
    ks = {}
    ns = {}
    for c in classes:
        kw = {}
        if c.sub:
            kw['allow_subclassing'] = True
        if c.parent:
            kw['parent'] = ks[c.parent.name]
        if c.ns and c.ns not in ns:
            ns[c.ns] = m.add_cpp_namespace(c.ns)
        ks[c.name] = (ns[c.ns] if c.ns else m).add_class(c.name, **kw)
    for c in classes:
        k = ks[c.name]
        k.add_constructor([param('int', 'x')])
        k.add_copy_constructor()
        k.add_instance_attribute('v', 'int')
        if c.text:
            k.add_output_stream_operator()
        for py in c.slots:
            for f in c.slots[py]:
                ps = [param('const %s &' % by[p.base].full, p.name) if p.base in by else param(p.ctype, p.name) for p in f.params]
                ret = retval(by[f.ret].full if f.ret in by else f.ret) if f.ret != 'void' else None
                kw = dict(custom_name=py)
                if f.throw:
                    kw['throw'] = [ex[t] for t in f.throw]
                if f.kw.get('unblock'):
                    kw['unblock_threads'] = True
                if f.kw.get('fn'):
                    k.add_function_as_method(f.cname, ret, [param('%s &' % c.full, 'self')] + ps, **kw)
                else:
                    k.add_method(f.cname, ret, ps, is_const=bool(f.kw.get('const')), **kw)
    with open(outfile, 'w') as o:
        m.generate(FileCodeSink(o))
