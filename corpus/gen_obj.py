"""wrapped functions that take and return class instances: description, C++ code, generator calls.
Every object has a value v and an identity id (fresh for each C++ object, copies included)."""
import gen
from gen import P


class C(object):
    """parent: C++ base; reg: declared to the generator, regparent: the base declared there; implicit: classes that convert to this one"""
    def __init__(self, name, policy=None, sub=False, copy=True, ctor=True, singleton=False, parent=None, virt=False, narrow=None, reg=True, regparent=None, implicit=(), bare=False):
        self.bare = bare       # no members are declared for it
        self.reg, self.implicit = reg, tuple(implicit)
        self.regparent = regparent or parent
        self.dyn = ()          # dynamic types of the library's object
        self.name, self.policy, self.sub, self.copy, self.ctor = name, policy, sub, copy, ctor
        self.singleton, self.parent, self.virt, self.narrow = singleton, parent, virt, narrow

    @property
    def root(self):
        return self.parent.root if self.parent else self

    @property
    def pol(self):
        return self.root.policy

    def ptr(self):
        return '::std::shared_ptr< %s >' % self.name if self.pol == 'shared' else self.name + ' *'

    def has_kind(self):
        """the virtual method is declared (no virtual methods in subclassable classes held by shared pointers)"""
        return self.virt and self.narrow_root() is not None and not (self.pol == 'shared' and self.can_sub())

    def can_sub(self):
        return self.reg and (self.sub or bool(self.regparent and self.regparent.can_sub()))

    def kindval(self):
        return sum(map(ord, self.name)) if self.parent else 0

    def narrow_root(self):
        """class whose narrowing table the class belongs to"""
        up = self.parent.narrow_root() if self.parent else None
        return up or (self if self.narrow else None)

    def shown_as(self, declared):
        """registered class that a returned object of this dynamic type gets if the function returns a pointer to `declared`"""
        c = self
        while c is not None and c is not declared:
            if c.reg and declared.narrow_root() is not None and c.narrow_root() is declared.narrow_root():
                return c
            c = c.parent
        return declared

    def is_sub(self, o):
        return self is o or (self.parent is not None and self.parent.is_sub(o))


class O(object):
    """object parameter: mode val, cref, ref, ptr, cptr (shared_ptr for ptr of such classes)"""
    sem = ('object',)
    n = None

    def __init__(self, c, name, mode='ptr', dir='in', null=False, default=False, **kw):
        self.c, self.name, self.mode, self.dir, self.null, self.default, self.kw = c, name, mode, dir, null, default, kw
        if mode in ('ptr', 'cptr') and 'transfer_ownership' not in kw and c.pol != 'shared' and mode == 'ptr':
            kw['transfer_ownership'] = False

    @property
    def ctype(self):
        n = self.c.name
        if self.mode in ('ptr', 'cptr') and self.c.pol == 'shared':
            return self.c.ptr()
        return {'val': n, 'cref': 'const %s&' % n, 'ref': '%s&' % n, 'ptr': '%s *' % n, 'cptr': 'const %s *' % n}[self.mode]

    def is_ptr(self):
        return self.mode in ('ptr', 'cptr')

    def is_in(self):
        return 'in' in self.dir

    def is_out(self):
        return self.dir == 'out'

    takes = property(lambda self: bool(self.kw.get('transfer_ownership')))


class R(object):
    """object result: how val, new (caller owns), copy, exist, cptr, ref, cref, refexist, freecopy, gift (the library's object, now the caller's)"""
    def __init__(self, c, how, null=False, **kw):
        self.c, self.how, self.null, self.kw = c, how, null, kw

    @property
    def ctype(self):
        n = self.c.name
        if self.c.pol == 'shared' and self.how in ('new', 'exist', 'pass'):
            return self.c.ptr()
        return {'val': n, 'cptr': 'const %s *' % n, 'ref': '%s&' % n, 'refexist': '%s&' % n, 'cref': 'const %s&' % n}.get(self.how, n + ' *')

    def opts(self):
        if self.c.pol == 'shared':
            return {}
        return dict({'new': dict(caller_owns_return=True), 'copy': dict(caller_owns_return=False), 'exist': dict(reference_existing_object=True),
                     'refexist': dict(reference_existing_object=True), 'ref': dict(caller_owns_return=False), 'freecopy': dict(free_after_copy=True), 'gift': dict(caller_owns_return=True)}.get(self.how, {}), **self.kw)


class OF(object):
    def __init__(self, name, ret='void', params=(), tags=None, cls=None, modes=None, throw=(), **kw):
        self.name, self.ret, self.params, self.tags, self.cls, self.modes, self.kw, self.throw = name, ret, list(params), tags, cls, modes, kw, throw
        self.pyname = kw.get('pyname') or name
        self.static = self.ctor = False
        self.cname = self.pyname

    def rtype(self):
        return self.ret.ctype if isinstance(self.ret, R) else self.ret


def cls_decl(c):
    n = c.name
    o = ['struct %s%s {' % (n, ' : %s' % c.parent.name if c.parent else '')]
    if not c.parent:
        o.append('  int v; int id; static int live;')
        if c.pol in ('refm', 'reff'):
            o.append('  mutable int refs; void Ref() const { refs++; } void Unref() const { if (--refs == 0) delete this; } int Peek() const { return refs; }')
        ri = ', refs(1)' if c.pol in ('refm', 'reff') else ''
        o.append('  %s(int x = 0) : v(x), id(vh_id())%s { live++; }' % (n, ri))
        if c.copy:
            o.append('  %s(const %s &o) : v(o.v), id(vh_id())%s { live++; }' % (n, n, ri))
            o.append('  %s &operator=(const %s &o) { v = o.v; return *this; }' % (n, n))
        else:
            o.append('private: %s(const %s &); %s &operator=(const %s &); public:' % (n, n, n, n))
        o.append('  %s~%s() { v = -77; live--; }' % ('virtual ' if c.virt else '', n))
        for i in c.implicit:
            o.append('  %s(const %s &o) : v(o.v), id(vh_id())%s { live++; }' % (n, i.name, ri))
        o.append('  int ident() const { return id; }')
        if c.virt:
            o.append('  virtual int kind() const { return 0; }')
    else:
        o.append('  int w; %s(int x = 0) : %s(x), w(x + 1) {}' % (n, c.parent.name))
        if c.virt:
            o.append('  virtual int kind() const { return %d; }' % c.kindval())
    o.append('};')
    if c.pol == 'reff':
        o.append('static inline void %s_rcinc(const %s *o) { o->Ref(); } static inline void %s_rcdec(const %s *o) { o->Unref(); }' % (n, n, n, n))
    if c.pol == 'free':
        o.append('static inline void %s_free(%s *o) { delete o; }' % (n, n))
    return '\n'.join(o)


def release(c, e):
    return {'refm': '%s->Unref();', 'reff': '%s->Unref();', 'shared': '%s = NULL;'}.get(c.pol, 'delete %s;') % e


def lib_rt(c, dyn=()):
    """library owned object and the store of objects that were given away to the library"""
    n, t = c.name, c.ptr()
    o = []
    if not c.parent:
        o.append('int %s::live;' % n)
    o.append('static %s %s_lib; static %s %s_sink[4]; static int %s_n;' % (t, n, t, n, n))
    one = 'std::make_shared< %s >(k)' if c.pol == 'shared' else 'new %s(k)'
    mk = one % n
    if dyn:
        o.append('static %s %s_mk(int k) { switch (vh_choose("%s.dyn", %d)) {' % (t, n, n, len(dyn)))
        for i, k in enumerate(dyn):
            o.append('  %s return %s;' % ('default:' if i == len(dyn) - 1 else 'case %d:' % i, one % k))
        o.append('} }')
        mk = n + '_mk(k)'
    o.append('%s &%s_get() { if (!%s_lib) { int k = (int) vh_int("%s.lib", 32); %s_lib = %s; } return %s_lib; }' % (t, n, n, n, n, mk, n))
    o.append('void %s_poke(int x) { %s_get()->v = x; }' % (n, n))
    o.append('int %s_taken() { vh_ev("%s_taken"); vh_i(%s_n); for (int i = 0; i < %s_n; i++) { vh_i(%s_sink[i]->v); vh_i(%s_sink[i]->id); } return %s_n; }' % (n, n, n, n, n, n, n))
    o.append('static void %s_reset() { for (int i = 0; i < %s_n; i++) { %s } %s_n = 0; if (%s_lib) { %s } %s_lib = NULL; }' %
             (n, n, release(c, n + '_sink[i]'), n, n, release(c, n + '_lib'), n))
    return '\n'.join(o)


def fbody(f):
    o = ['vh_ev("%s");' % f.name]
    if f.cls:
        o.append('vh_i(this->v); vh_i(this->id);')
    for p in f.params:
        if not isinstance(p, O):
            if p.is_in():
                o.append(gen.logv(p, p.name))
            continue
        if not p.is_in():
            continue
        if p.is_ptr():
            o.append('if (!%s) vh_z(0); else { vh_i(%s->v); vh_i(%s->id); }' % (p.name, p.name, p.name))
        else:
            o.append('vh_i(%s.v); vh_i(%s.id);' % (p.name, p.name))
    if f.throw:
        o.append('switch (vh_choose("%s.throw", %d)) {' % (f.name, len(gen.throws(f)) + 1))
        for i, t in enumerate(gen.throws(f)):
            o.append('case %d: throw %s;' % (i + 1, gen.THROWN[t][0]))
        o.append('}')
    for p in f.params:
        if isinstance(p, O):
            if p.mode in ('val', 'ref') or p.mode == 'ptr':
                e = p.name + ('->v' if p.is_ptr() else '.v')
                g = 'if (%s) ' % p.name if p.is_ptr() else ''
                o.append('%s{ %s = (int) vh_int("%s.%s", 32); }' % (g, e, f.name, p.name))
            if p.takes:
                o.append('if (%s) %s_sink[%s_n++] = %s;' % (p.name, p.c.name, p.c.name, p.name))
        elif p.is_out():
            o.append('%s = %s;' % (('(*%s)' if p.mode == 'ptr' else '%s') % p.name, gen.newv(p, '%s.%s' % (f.name, p.name))))
    if isinstance(f.ret, R):
        c, how = f.ret.c, f.ret.how
        n = c.name
        if f.ret.null:
            o.append('if (vh_choose("%s.null", 2)) return NULL;' % f.name)
        dyn = f.kw.get('dyn')
        if how == 'val':
            o.append('return %s((int) vh_int("%s.r", 32));' % (n, f.name))
        elif how in ('new', 'freecopy'):
            if dyn:
                o.append('int k = (int) vh_int("%s.r", 32); %s r; switch (vh_choose("%s.dyn", %d)) {' % (f.name, c.ptr(), f.name, len(dyn)))
                for i, k in enumerate(dyn):
                    o.append('  %s r = %s; break;' % ('default:' if i == len(dyn) - 1 else 'case %d:' % i, ('std::make_shared< %s >(k)' if c.pol == 'shared' else 'new %s(k)') % k))
                o.append('} vh_i(r->id); return r;')
            elif c.pol == 'shared':
                o.append('%s r = std::make_shared< %s >((int) vh_int("%s.r", 32)); vh_i(r->id); return r;' % (c.ptr(), n, f.name))
            else:
                o.append('%s *r = new %s((int) vh_int("%s.r", 32)); vh_i(r->id); return r;' % (n, n, f.name))
        elif how == 'gift':
            o.append('%s r = %s_get(); %s_lib = NULL; vh_i(r->v); vh_i(r->id); return r;' % (c.ptr(), n, n))
        elif how == 'pass':
            o.append('return %s;' % f.params[0].name)
        else:
            o.append('%s &r = %s_get(); vh_i(r->v); vh_i(r->id); return %s;' % (c.ptr(), n, '*r' if how in ('ref', 'cref', 'refexist') else 'r'))
    elif f.ret != 'void':
        o.append('return %s;' % gen.newv(P(f.ret, 'r'), f.name + '.r'))
    return '\n  '.join(o)


def fsig(f, scope=''):
    def one(p):
        return '%s %s' % (p.ctype, p.name)
    return '%s %s%s(%s)' % (f.rtype(), scope, f.cname, ', '.join(one(p) for p in f.params))


def header(classes, funcs, extra=''):
    o = ['#ifndef LIB_H', '#define LIB_H', '#include "vh.h"', '#include <memory>', '#include <map>', gen.EXC_SRC, extra]
    for c in classes:
        d = cls_decl(c)
        ms = ['  %s;' % fsig(f) for f in funcs if f.cls is c]
        o.append(d.replace('\n};', '\n%s\n};' % '\n'.join(ms), 1) if ms else d)
        o.append('void %s_poke(int x); int %s_taken();' % (c.name, c.name))
    o += [fsig(f) + ';' for f in funcs if not f.cls]
    o.append('#endif')
    return '\n'.join(o) + '\n'


def source(classes, funcs, extra=''):
    o = ['#include "lib.h"', gen.RT]
    for c in classes:
        o.append(lib_rt(c, c.dyn))
    for f in funcs:
        o.append('%s {\n  %s\n}' % (fsig(f, f.cls.name + '::' if f.cls else ''), fbody(f)))
    o.append(extra)
    o.append('extern "C" void vh_reset() { delete g_str; g_str = NULL; %s }' % ' '.join('%s_reset();' % c.name for c in classes))
    o.append('extern "C" int vh_live() { return %s; }' % ' + '.join(['0'] + ['%s::live' % c.name for c in classes if not c.parent]))
    return '\n'.join(o) + '\n'


def declare_class(m, c, made):
    from pybindgen import cppclass
    kw = {}
    if not c.reg:
        return None
    if c.regparent:
        kw['parent'] = made[c.regparent.name]
        if c.narrow and not c.regparent.narrow_root():
            kw['automatic_type_narrowing'] = True
        if c.sub and not c.regparent.sub:
            kw['allow_subclassing'] = True
    else:
        if c.policy == 'refm':
            kw['memory_policy'] = cppclass.ReferenceCountingMethodsPolicy('Ref', 'Unref', 'Peek')
        elif c.policy == 'reff':
            kw['memory_policy'] = cppclass.ReferenceCountingFunctionsPolicy(c.name + '_rcinc', c.name + '_rcdec')
        elif c.policy == 'free':
            kw['memory_policy'] = cppclass.FreeFunctionPolicy(c.name + '_free')
        elif c.policy == 'shared':
            from pybindgen.typehandlers.smart_ptr import StdSharedPtr
            kw['memory_policy'] = StdSharedPtr(c.name)
        if c.narrow:
            kw['automatic_type_narrowing'] = True
        if c.sub:
            kw['allow_subclassing'] = True
    if c.singleton:
        kw['is_singleton'] = True
    k = m.add_class(c.name, **kw)
    made[c.name] = k
    return k


def declare_members(c, k):
    from pybindgen import param
    if c.ctor:
        k.add_constructor([param('int', 'x')])
    if c.copy:
        k.add_copy_constructor()
    if not c.parent:
        k.add_instance_attribute('v', 'int')
        k.add_method('ident', 'int', [], is_const=True)
    if c.has_kind() and not c.bare:
        k.add_method('kind', 'int', [], is_const=True, is_virtual=True)


def pparams(f):
    from pybindgen import Parameter, param
    ps = []
    for p in f.params:
        if not isinstance(p, O):
            ps += gen.pparams(type('x', (), dict(params=[p])))
            continue
        kw = dict(p.kw)
        if p.dir != 'in':
            kw['direction'] = getattr(Parameter, gen.DIRS[p.dir])
        if p.null:
            kw['null_ok'] = True
        if p.default:
            kw['default_value'] = p.default
        ps.append(param(p.ctype, p.name, **kw))
    return ps


def pret(f):
    from pybindgen import retval
    if isinstance(f.ret, R):
        return retval(f.ret.ctype, **f.ret.opts())
    return gen.pret(f)


def generate(name, classes, funcs, outfile, before=None, after=None):
    from pybindgen import Module, FileCodeSink, param
    m = Module(name)
    m.add_include('"lib.h"')
    ex = gen.add_exceptions(m)
    made = {}
    for c in classes:
        declare_class(m, c, made)
    for c in classes:
        if c.reg:
            declare_members(c, made[c.name])
            for i in c.implicit:
                made[i.name].implicitly_converts_to(made[c.name])
    if before:
        before(m, made)
    for c in classes:
        if not c.reg:
            continue
        m.add_function('%s_poke' % c.name, None, [param('int', 'x')])
        m.add_function('%s_taken' % c.name, 'int', [])
    for f in funcs:
        kw = dict(f.kw.get('opts', {}))
        if f.throw:
            kw['throw'] = [ex[t] for t in f.throw]
        if f.kw.get('unblock'):
            kw['unblock_threads'] = True
        if f.cls:
            g = made[f.cls.name].add_method(f.pyname, pret(f), pparams(f), **kw)
        else:
            g = m.add_function(f.pyname, pret(f), pparams(f), **kw)
        for cw in f.kw.get('wards', ()):
            g.add_custodian_and_ward(*cw)
    if after:
        after(m, made)
    with open(outfile, 'w') as o:
        m.generate(FileCodeSink(o))
