"""virtual methods that take and return class instances (description: gen_virt.VC/VF with gen_obj.O/R in place of scalars);
drv_H_m(H &me) makes the objects, logs them, calls me.m and logs what it then sees"""
import gen
import gen_obj
import gen_virt
from gen import P
from gen_obj import O, R, release


class VOF(gen_virt.VF):
    """virtual method with object parameters or result; ret is a C type name or R"""
    def __init__(self, name, ret='void', params=(), **kw):
        gen_virt.VF.__init__(self, name, ret if not isinstance(ret, R) else ret.ctype, params, **kw)
        self.shown = kw.get('shown', False)      # Python may have seen the object before the call
        self.robj = ret if isinstance(ret, R) else None
        if self.robj:
            self.rets = self.robj


def log_obj(e, p):
    if p:
        return 'if (!%s) { vh_i(-1); vh_i(-1); } else { vh_i(%s->v); vh_i(%s->id); }' % (e, e, e)
    return 'vh_i(%s.v); vh_i(%s.id);' % (e, e)


def make_obj(c, tag, null=False):
    mk = ('std::make_shared< %s >(k)' if c.pol == 'shared' else 'new %s(k)') % c.name
    s = 'int k = (int) vh_int("%s", 32); %%s = %s;' % (tag, mk)
    return 'if (!vh_choose("%s.null", 2)) { %s }' % (tag, s) if null else '{ %s }' % s


def impl_body(c, m):
    t = '%s::%s' % (c.name, m.name)
    o = ['vh_ev("%s"); vh_i(this->id);' % t]
    for p in m.params:
        if isinstance(p, O):
            if p.c.name != c.name:
                o.append(log_obj(p.name, p.is_ptr()))
        elif p.is_in():
            o.append(gen.logv(p, '(*%s)' % p.name if p.mode == 'ptr' else p.name))
    for p in m.params:
        if isinstance(p, O):
            if p.takes and p.c.pol != 'shared':
                o.append('if (%s) { %s }' % (p.name, release(p.c, p.name)))
            elif p.dir == 'inout':
                o.append('%s%sv = (int) vh_int("%s.%s", 32);' % (p.name, '->' if p.is_ptr() else '.', t, p.name))
        elif p.is_out():
            o.append('%s = %s;' % ('(*%s)' % p.name if p.mode == 'ptr' else p.name, gen.newv(p, '%s.%s' % (t, p.name))))
    if m.robj:
        r = m.robj.c
        if m.robj.how == 'val':
            o.append('return %s((int) vh_int("%s.r", 32));' % (r.name, t))
        elif m.robj.how == 'cref':
            o.append('%s_own.v = (int) vh_int("%s.r", 32); return %s_own;' % (r.name, t, r.name))
        else:
            o.append('%s r; ' % r.ptr() + make_obj(r, t + '.r') % 'r' + ' return r;')
    elif m.ret != 'void':
        o.append('return %s;' % gen.newv(m.rets, t + '.r'))
    return '\n  '.join(o)


def drv(c, m):
    t = 'drv_%s_%s' % (c.name, m.name)
    o = []
    args = []
    if m.shown:
        return drv_shown(c, m)
    for p in m.params:
        a = p.name
        if isinstance(p, O) and p.c.name == c.name:
            a = '&me' if p.is_ptr() else 'me'
        elif isinstance(p, O):
            k = p.c
            if p.is_ptr():
                o.append('%s %s = NULL; ' % (k.ptr(), a) + make_obj(k, t + '.' + a, p.null) % a)
            else:
                o.append('%s %s((int) vh_int("%s.%s", 32));' % (k.name, a, t, a))
        else:
            o.append('%s %s = %s;' % (p.base, a, gen.newv(p, '%s.%s' % (t, a))))
            if p.mode == 'ptr':
                a = '&' + a
        args.append(a)
    mine = [p for p in m.params if isinstance(p, O) and p.c.name != c.name]
    o.append('vh_ev("%s.in");' % t)
    for p in mine:
        o.append(log_obj(p.name, p.is_ptr()))
    if m.call == 'thread':
        o.append('vh_gil_release();')
    rt = m.ret if not m.robj else {'cref': 'const %s &' % m.robj.c.name}.get(m.robj.how, m.ret)
    o.append('%sme.%s(%s);' % ('' if m.ret == 'void' else rt + ' r = ', m.name, ', '.join(args)))
    o.append('vh_ev("%s");' % t)
    if m.call == 'thread':
        o.append('vh_gil_restore();')
    if m.robj:
        o.append(log_obj('r', m.robj.how not in ('val', 'cref')))
    elif m.ret != 'void':
        o.append(gen.logv(m.rets, 'r'))
    for p in m.params:
        if p in mine:
            if not (p.takes and p.c.pol != 'shared'):
                o.append(log_obj(p.name, p.is_ptr()))
        elif not isinstance(p, O) and p.is_out():
            o.append(gen.logv(p, p.name))
    if m.robj and m.robj.how == 'new' and m.robj.c.pol != 'shared':
        o.append('if (r) { %s }' % release(m.robj.c, 'r'))
    for p in mine:
        if p.is_ptr() and p.c.pol != 'shared' and not p.takes:
            o.append('if (%s) { %s }' % (p.name, release(p.c, p.name)))
    return 'void %s(%s &me) {\n  %s\n}' % (t, c.name, '\n  '.join(o))


def drv_shown(c, m):
    """show_H_m makes and returns the object without the ownership, drv_H_m passes it"""
    t = 'drv_%s_%s' % (c.name, m.name)
    p = m.params[0]
    k = p.c
    o = ['static %s %s_obj;' % (k.ptr(), t),
         '%s show_%s_%s() {\n  ' % (k.ptr(), c.name, m.name) + make_obj(k, t + '.x') % (t + '_obj') + '\n  return %s_obj;\n}' % t,
         'void %s(%s &me) {\n  %s x = %s_obj;' % (t, c.name, k.ptr(), t)]
    o.append('  vh_ev("%s.in"); %s' % (t, log_obj('x', True)))
    o.append('  %s_obj = NULL;' % t)
    o.append('  %sme.%s(x);' % ('' if m.ret == 'void' else m.ret + ' r = ', m.name))
    o.append('  vh_ev("%s"); %s' % (t, '' if m.ret == 'void' else gen.logv(m.rets, 'r')))
    if not p.takes:
        o.append('  ' + log_obj('x', True))
        o.append('  ' + release(k, 'x'))
    return '\n'.join(o) + '\n}'


def host_decl(c):
    n = c.name
    o = ['struct %s {' % n, '  int v; int id; static int live;']
    if c.pol in ('refm', 'reff'):
        o.append('  mutable int refs; void Ref() const { refs++; } void Unref() const { if (--refs == 0) delete this; } int Peek() const { return refs; }')
    ri = ', refs(1)' if c.pol in ('refm', 'reff') else ''
    o.append('  %s(int x = 0) : v(x), id(vh_id())%s { live++; } virtual ~%s() { v = -77; live--; } int ident() const { return id; }' % (n, ri, n))
    if c.copy:
        o.append('  %s(const %s &o) : v(o.v), id(vh_id())%s { live++; }' % (n, n, ri))
    for m in c.methods:
        o.append('  virtual %s%s;' % (gen_virt.msig(m), ' = 0' if m.pure else ''))
    o.append('};')
    for m in c.methods:
        o.append('void drv_%s_%s(%s &me);' % (n, m.name, n))
        if getattr(m, 'shown', False):
            o.append('%s show_%s_%s();' % (m.params[0].c.ptr(), n, m.name))
    return '\n'.join(o)


class Host(gen_obj.C):
    def __init__(self, name, methods, policy=None, store=True, copy=False):
        gen_obj.C.__init__(self, name, policy=policy, sub=True, copy=copy, virt=True)
        self.methods, self.store = methods, store
        for m in methods:
            m.cls = self


STORE = '''
static %(T)s %(n)s_st;
void %(n)s_keep(%(T)s x) { vh_ev("%(n)s_keep"); if (%(n)s_st) { %(rel)s } %(n)s_st = x; }
void %(n)s_kill() { vh_ev("%(n)s_kill"); if (%(n)s_st) { %(rel)s } %(n)s_st = NULL; }
%(T)s %(n)s_peek() { vh_ev("%(n)s_peek"); return %(n)s_st; }
const %(T)s %(n)s_cpeek() { vh_ev("%(n)s_peek"); return %(n)s_st; }
%(T)s %(n)s_give() { vh_ev("%(n)s_give"); %(T)s r = %(n)s_st; %(n)s_st = NULL; return r; }
const %(T)s %(n)s_cgive() { return %(n)s_give(); }
int %(n)s_fire(int x) { vh_ev("%(n)s_fire"); vh_i(%(n)s_st ? %(n)s_st->id : -1); return %(n)s_st ? %(n)s_st->f(x) : -1; }
void %(n)s_self(%(T)s x) { vh_ev("%(n)s_self"); vh_i(x->v); vh_i(x->id); }
static void %(n)s_reset() { if (%(n)s_st) { %(rel)s } %(n)s_st = NULL; }
'''


def store_sigs(c):
    t, n = c.ptr(), c.name
    return ('void %s_keep(%s x); void %s_kill(); %s %s_peek(); int %s_fire(int x); void %s_self(%s x);' % (n, t, n, t, n, n, n, t)
            + 'const %s %s_cpeek(); %s %s_give(); const %s %s_cgive();' % (t, n, t, n, t, n))


def header(objs, hosts):
    o = ['#ifndef LIB_H', '#define LIB_H', '#include "vh.h"', '#include <memory>', '#include <map>']
    o += [gen_obj.cls_decl(c) for c in objs]
    for h in hosts:
        o.append(host_decl(h))
        if h.store:
            o.append(store_sigs(h))
    return '\n'.join(o + ['#endif']) + '\n'


def source(objs, hosts):
    o = ['#include "lib.h"', gen.RT]
    for c in objs:
        o.append('int %s::live; ' % c.name)
        if any(m.robj and m.robj.how == 'cref' and m.robj.c is c for h in hosts for m in h.methods if isinstance(m, VOF)):
            o.append('static %s %s_own;' % (c.name, c.name))
    for h in hosts:
        o.append('int %s::live;' % h.name)
        for m in h.methods:
            if not m.pure:
                o.append('%s {\n  %s\n}' % (gen_virt.msig(m, h.name + '::'), impl_body(h, m)))
            o.append(drv(h, m))
        if h.store:
            o.append(STORE % dict(n=h.name, T=h.ptr(), rel=release(h, h.name + '_st')))
    o.append('extern "C" void vh_reset() { delete g_str; g_str = NULL; %s }' % ' '.join('%s_reset();' % h.name for h in hosts if h.store))
    kept = [m.robj.c.name for h in hosts for m in h.methods if isinstance(m, VOF) and m.robj and m.robj.how == 'cref']
    o.append('extern "C" int vh_live() { return %s; }' % ' + '.join(['0'] + ['%s::live' % c.name for c in objs + hosts if c.name not in kept]))
    return '\n'.join(o) + '\n'


def generate(name, objs, hosts, outfile):
    from pybindgen import Module, FileCodeSink, param, retval
    m = Module(name)
    m.add_include('"lib.h"')
    made = {}
    for c in objs + hosts:
        gen_obj.declare_class(m, c, made)
    for c in objs + hosts:
        gen_obj.declare_members(c, made[c.name])
    for h in hosts:
        for f in h.methods:
            ret = gen_obj.pret(type('x', (), dict(ret=f.robj))) if f.robj else gen.pret(f)
            if getattr(f, 'shown', False):
                k = f.params[0].c
                kw = {} if k.pol == 'shared' else dict(caller_owns_return=False) if k.pol else dict(reference_existing_object=True)
                m.add_function('show_%s_%s' % (h.name, f.name), retval(k.ptr(), **kw), [])
            made[h.name].add_method(f.name, ret, gen_obj.pparams(f), is_virtual=True, is_const=f.const, is_pure_virtual=f.pure)
            m.add_function('drv_%s_%s' % (h.name, f.name), None, [param(h.name + '&', 'me')], unblock_threads=f.call == 'unblock')
        if h.store:
            T = h.ptr() if h.pol == 'shared' else h.name + '*'
            kw = {} if h.pol == 'shared' else dict(transfer_ownership=True)
            m.add_function(h.name + '_keep', None, [param(T, 'x', **kw)])
            m.add_function(h.name + '_kill', None, [])
            kw = {} if h.pol == 'shared' else dict(caller_owns_return=False) if h.pol else dict(reference_existing_object=True)
            m.add_function(h.name + '_peek', retval(T, **kw), [])
            m.add_function(h.name + '_cpeek', retval('const ' + T, **kw), [])
            m.add_function(h.name + '_give', retval(T, caller_owns_return=True), [])
            m.add_function(h.name + '_cgive', retval('const ' + T, caller_owns_return=True), [])
            m.add_function(h.name + '_fire', 'int', [param('int', 'x')])
            m.add_function(h.name + '_self', None, [param(T, 'x', **({} if h.pol == 'shared' else dict(transfer_ownership=False)))])
    with open(outfile, 'w') as o:
        m.generate(FileCodeSink(o))
