"""class hierarchies of any shape: description, C++ code, generator calls and scenarios.
Every class has its own value fields; methods and attributes of every base must reach the fields of the right subobject."""
import gen
from sc_obj import i32


class KL(object):
    def __init__(self, name, fields, bases=(), virt=False, sub=False, scope=None, ns=None):
        self.name, self.fields, self.bases, self.virt, self.sub, self.scope = name, fields, list(bases), virt, sub, scope
        self.ns = ns or (scope.ns if scope else None)

    @property
    def full(self):
        return '::'.join(([self.scope.full] if self.scope else [self.ns] if self.ns else []) + [self.name])

    @property
    def path(self):
        """python names from the module on"""
        return (self.scope.path if self.scope else self.ns.split('::') if self.ns else []) + [self.name]

    def line(self):
        """all bases, the class last"""
        o = []
        for b in self.bases:
            for c in b.line():
                if c not in o:
                    o.append(c)
        return o + [self]

    def all_fields(self):
        return [f for c in self.line() for f in c.fields]

    def nonfirst(self, c):
        """c is a base of the class at another address"""
        if c is self or not self.bases:
            return False
        b = self.bases[0]
        if c in b.line():
            return b.nonfirst(c)
        return True

    def multi(self):
        return any(len(c.bases) > 1 for c in self.line())


def decl(c, classes):
    n = c.name
    fs = c.all_fields()
    own = c.fields
    o = ['struct %s%s {' % (n, ' : ' + ', '.join('public ' + b.full for b in c.bases) if c.bases else '')]
    o.append('  int %s;' % ', '.join(own))
    ini = ['%s(%s)' % (b.full if b.name != n else b.name, ', '.join(b.all_fields())) for b in c.bases] + ['%s(%s)' % (f, f) for f in own]
    o.append('  %s(%s) : %s { ++::vh_count; }' % (n, ', '.join('int %s' % f for f in fs), ', '.join(ini)))
    o.append('  %s(const %s &o) : %s { ++::vh_count; }' % (n, n, ', '.join(['%s(o)' % b.full for b in c.bases] + ['%s(o.%s)' % (f, f) for f in own])))
    o.append('  %s~%s() { --::vh_count; }' % ('virtual ' if c.virt else '', n))
    o.append('  int get_%s() const { return %s; }' % (own[0], own[0]))
    o.append('  void set_%s(int k) { %s = k; }' % (own[0], own[0]))
    if c.virt:
        o.append('  virtual int v_%s() const { return %s; }' % (own[0], own[0]))
    for k in classes:
        if k.scope is c and not k.bases:
            o += ['  ' + l for l in decl(k, classes)]
    # inner classes with a base may need the complete outer class
    o += ['  struct %s;' % k.name for k in classes if k.scope is c and k.bases]
    o.append('};')
    return o


def header(classes):
    o = ['#ifndef LIB_H', '#define LIB_H', '#include "vh.h"', gen.EXC_SRC, 'extern int vh_count;']
    for c in classes:
        if c.scope and not c.bases:
            continue
        d = decl(c, classes)
        if c.scope:
            d[0] = d[0].replace('struct ' + c.name, 'struct ' + c.full, 1)
        elif c.ns:
            for n in reversed(c.ns.split('::')):
                d = ['namespace %s {' % n] + d + ['}']
        o += d
    for c in classes:
        o += [s + ';' for s in funcs(c)]
    o.append('#endif')
    return '\n'.join(o) + '\n'


def funcs(c):
    n, t = c.name, c.full
    return ['void %s_ref(%s &x)' % (n, t), 'void %s_cref(const %s &x)' % (n, t), 'void %s_ptr(%s *x)' % (n, t), 'void %s_val(%s x)' % (n, t),
            '%s *%s_new()' % (t, n), '%s %s_rval()' % (t, n), '%s *%s_pass(%s &x)' % (t, n, t)]


def source(classes):
    o = ['#include "lib.h"', gen.RT, 'int vh_count;', 'static int g(const char *n) { return (int) vh_int(n, 32); }']
    for c in classes:
        n = c.name
        fs = c.all_fields()
        sg = funcs(c)
        for s, e in zip(sg[:4], ('x.', 'x.', 'x->', 'x.')):
            fn = s.split('(')[0].split()[-1].lstrip('*')
            o.append('%s { vh_ev("%s"); %s %s}' % (s, fn, ' '.join('vh_i(%s%s);' % (e, f) for f in fs),
                                                  '' if fn.endswith('cref') else ' '.join('%s%s = g("%s.%s");' % (e, f, fn, f) for f in fs)))
        mk = '%s(%s)' % (c.full, ', '.join('v_' + f for f in fs))
        vs = ' '.join('int v_%s = g("%%s.%s");' % (f, f) for f in fs)
        o.append('%s { %s return new %s; }' % (sg[4], vs.replace('%s', n + '_new'), mk))
        o.append('%s { %s return %s; }' % (sg[5], vs.replace('%s', n + '_rval'), mk))
        o.append('%s { return &x; }' % sg[6])
    o.append('extern "C" void vh_reset() { delete g_str; g_str = NULL; }')
    o.append('extern "C" int vh_live() { return vh_count; }')
    return '\n'.join(o) + '\n'


def generate(name, classes, outfile):
    from pybindgen import Module, FileCodeSink, param, retval
    m = Module(name)
    m.add_include('"lib.h"')
    spaces = {None: m}
    made = {}
    for c in classes:
        if c.ns and c.ns not in spaces:
            parts = c.ns.split('::')
            for i in range(len(parts)):
                k = '::'.join(parts[:i + 1])
                if k not in spaces:
                    spaces[k] = (spaces['::'.join(parts[:i])] if i else m).add_cpp_namespace(parts[i])
        kw = {}
        if len(c.bases) > 1:
            kw['parent'] = [made[b.name] for b in c.bases]
        elif c.bases:
            kw['parent'] = made[c.bases[0].name]
        if c.scope:
            kw['outer_class'] = made[c.scope.name]
        if c.sub:
            kw['allow_subclassing'] = True
        made[c.name] = spaces[c.ns].add_class(c.name, **kw)
    for c in classes:
        k = made[c.name]
        k.add_constructor([param('int', f) for f in c.all_fields()])
        k.add_copy_constructor()
        for f in c.fields:
            k.add_instance_attribute(f, 'int')
        k.add_method('get_' + c.fields[0], 'int', [], is_const=True)
        k.add_method('set_' + c.fields[0], None, [param('int', 'k')])
        if c.virt:
            k.add_method('v_' + c.fields[0], 'int', [], is_const=True, is_virtual=True)
        t = c.full
        n = c.name
        m.add_function(n + '_ref', None, [param(t + '&', 'x')])
        m.add_function(n + '_cref', None, [param('const %s&' % t, 'x')])
        m.add_function(n + '_ptr', None, [param(t + '*', 'x', transfer_ownership=False)])
        m.add_function(n + '_val', None, [param(t, 'x')])
        m.add_function(n + '_new', retval(t + '*', caller_owns_return=True), [])
        m.add_function(n + '_rval', retval(t), [])
        m.add_function(n + '_pass', retval(t + '*', reference_existing_object=True), [param(t + '&', 'x')])
    with open(outfile, 'w') as o:
        m.generate(FileCodeSink(o))


def look(d, c):
    h = d.module()
    for n in c.path:
        h = d.getattr(h, n)
        d.require(h is not None, 'the class %s is not where the generator was told to put it' % c.full)
    return h


def make(d, c, how='ctor', tag='a'):
    """instance of c and its field values"""
    fs = c.all_fields()
    if how == 'ctor' or how == 'py':
        vs = dict((f, i32(d, tag + f)) for f in fs)
        t = look(d, c)
        if how == 'py':
            t = d.subclass(t, 'Py' + c.name, {})
        o = d.call(t, [d.int(vs[f]) for f in fs])
    else:
        o = d.call(d.getattr(d.module(), '%s_%s' % (c.name, how)), [])
        vs = dict((f, d.cint('%s_%s.%s#0' % (c.name, how, f), 32, 1)) for f in fs)
    d.require(o is not None, 'an instance of %s cannot be made (%s)' % (c.full, d.xname))
    d.require(how == 'py' or d.type_is(o, look(d, c)), 'the object is not an instance of %s' % c.full)
    d.events()
    return o, vs


def check(d, o, b, vs, what):
    """fields of base b through attribute, method and virtual method"""
    for f in b.fields:
        h = d.getattr(o, f)
        d.require(h is not None and d.eq(d.ival(h), vs[f]), '%s: the attribute %s has the wrong value' % (what, f))
    f = b.fields[0]
    for m in ['get_' + f] + (['v_' + f] if b.virt else []):
        h = d.callm(o, m)
        d.require(h is not None and d.eq(d.ival(h), vs[f]), '%s: the method %s sees the wrong object' % (what, m))


class Part(object):
    """the members of base b on an instance of class c"""
    def __init__(self, c, b, how, tags=('P20',)):
        self.c, self.b, self.how, self.tags, self.name = c, b, how, tags, 'part/%s/%s/%s' % (c.name, b.name, how)

    def run(self, d):
        o, vs = make(d, self.c, self.how)
        check(d, o, self.b, vs, 'new object')
        f = self.b.fields[0]
        x = i32(d, 'x')
        d.require(d.callm(o, 'set_' + f, d.int(x)) is not None, 'the method fails (%s)' % d.xname)
        vs[f] = x
        check(d, o, self.b, vs, 'after a method call')
        y = i32(d, 'y')
        d.require(d.setattr(o, f, d.int(y)), 'writing the attribute fails')
        vs[f] = y
        for b in self.c.line():
            if not self.c.nonfirst(b):
                check(d, o, b, vs, 'after an assignment')
        d.rec.append('ok')


class Pass(object):
    """an instance of c as argument of a function that takes b"""
    def __init__(self, c, b, how, tags=('P20',)):
        self.c, self.b, self.how, self.tags, self.name = c, b, how, tags, 'pass/%s/%s/%s' % (c.name, b.name, how)

    def run(self, d):
        c, b = self.c, self.b
        o, vs = make(d, c, 'py' if self.how.startswith('py') else 'ctor')
        mode = self.how.replace('py', '')
        r = d.call(d.getattr(d.module(), '%s_%s' % (b.name, mode)), [o])
        evs = d.events()
        d.rec.append(d.xname if r is None else 'ok')
        if b not in c.line():
            d.require(r is None and not evs, 'an instance of an unrelated class is accepted')
            return
        d.require(r is not None, 'an instance of a subclass is refused (%s)' % d.xname)
        if mode == 'pass':
            d.require(d.kind(r) == 'wrapper', 'the result is no instance')
            check(d, r, b, vs, 'the returned object')
            return
        d.require(len(evs) == 1 and len(evs[0][2]) == len(b.all_fields()), 'the wrapped function does not run once')
        for f, v in zip(b.all_fields(), evs[0][2]):
            d.require(d.eq(v, vs[f]), 'the wrapped function sees the wrong object')
            if mode in ('ref', 'ptr'):
                vs[f] = d.cint('%s_%s.%s#0' % (b.name, mode, f), 32, 1)
        for k in c.line():
            if not c.nonfirst(k):
                check(d, o, k, vs, 'after the call')


def scenarios(classes, tags=('P20',)):
    out = []
    for c in classes:
        for b in c.line():
            hs = ('ctor', 'new', 'rval') + (('py',) if c.sub else ())
            # members of a base at another address are not reached (recorded in known_findings.json): one construction shows it
            out += [Part(c, b, h, tags) for h in (hs[:1] if c.nonfirst(b) else hs)]
        for b in classes:
            if b in c.line():
                ms = ['ref', 'cref', 'ptr', 'val', 'pass'] + (['pyref', 'pyptr', 'pypass'] if c.sub else [])
                if c.nonfirst(b):
                    ms = ['ref']
            elif (b.ns or b.scope or c.ns or c.scope or c in b.line() or c.multi()):
                ms = ['ref', 'ptr', 'val']
            else:
                continue
            out += [Pass(c, b, m, tags) for m in ms]
    return out
