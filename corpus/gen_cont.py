"""wrapped containers: description, C++ functions that observe them, generator calls"""
import gen
from gen import P
from gen_obj import C, cls_decl, lib_rt


class K(object):
    """container: kind seq, set or map; val and key: P (scalar), C (class by value, or shared pointer to it) or K"""
    n = None

    def __init__(self, name, ctype, kind, val, key=None, ordered=True, multi=False, ctag=None):
        self.name, self.ctype, self.kind, self.val, self.key, self.ordered, self.multi = name, ctype, kind, val, key, ordered, multi
        self.ctag = ctag or ctype.split('::')[1].split('<')[0]


class CP(object):
    """container parameter: mode val, cref, ref, ptr"""
    n = None

    def __init__(self, k, name, mode='val', dir='in', default=None, take=False):
        self.k, self.name, self.mode, self.dir, self.default, self.take = k, name, mode, dir, default, take

    @property
    def ctype(self):
        return {'val': '%s', 'cref': 'const %s&', 'ref': '%s&', 'ptr': '%s*'}[self.mode] % self.k.ctype

    def is_in(self):
        return 'in' in self.dir

    def is_out(self):
        return 'out' in self.dir


class CF(object):
    """function; ret: ctype, ('val', K) or ('ref', K)"""
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params


def scalar(t):
    return P(t, 'x')


def elt_type(e):
    if isinstance(e, K):
        return e.ctype
    if isinstance(e, C):
        return e.ptr() if e.pol == 'shared' else e.name
    return e.ctype


def log_elt(e, x):
    if isinstance(e, K):
        return 'lg_%s(%s);' % (e.name, x)
    if isinstance(e, C):
        if e.pol == 'shared':
            return 'vh_i(%s->v); vh_i(%s->id);' % (x, x)
        return 'vh_i(%s.v); vh_i(%s.id);' % (x, x)
    if e.ctype == 'bool':
        return 'vh_i(%s ? 1 : 0);' % x
    return gen.logv(e, x)


def fresh(e, tag):
    if isinstance(e, K):
        return 'fl_%s()' % e.name
    if isinstance(e, C):
        return ('std::make_shared< %s >(vh_int32("%s"))' if e.pol == 'shared' else '%s(vh_int32("%s"))') % (e.name, tag)
    return gen.newv(e, tag)


def k_src(k):
    """logging and filling of a container"""
    o = ['static void lg_%s(const %s &c) {' % (k.name, k.ctype), '  vh_i((long long) c.size());',
         '  for (%s::const_iterator i = c.begin(); i != c.end(); ++i) {' % k.ctype]
    if k.key is not None:
        o.append('    ' + log_elt(k.key, 'i->first') + ' ' + log_elt(k.val, 'i->second'))
    else:
        o.append('    ' + log_elt(k.val, '(*i)'))
    o.append('  }\n}')
    o.append('static %s fl_%s() {' % (k.ctype, k.name))
    o.append('  %s c; int n = vh_choose("fl_%s", 3);' % (k.ctype, k.name))
    for i in range(2):
        t = 'fl_%s.%d' % (k.name, i)
        if k.key is not None:
            o.append('  if (n > %d) { c.insert(std::pair<const %s, %s>(%s, %s)); }' % (i, elt_type(k.key), elt_type(k.val), fresh(k.key, t + 'k'), fresh(k.val, t + 'v')))
        else:
            o.append('  if (n > %d) { c.%s(%s); }' % (i, 'push_back' if k.kind == 'seq' else 'insert', fresh(k.val, t)))
    o.append('  return c;\n}')
    o.append('static %s *own_%s;' % (k.ctype, k.name))
    return '\n'.join(o)


def body(f):
    o = ['vh_ev("%s");' % f.name]
    for p in f.params:
        if not p.is_in():
            continue
        if isinstance(p, CP):
            o.append('lg_%s(%s%s);' % (p.k.name, '*' if p.mode == 'ptr' else '', p.name))
        else:
            o.append(gen.logv(p, p.name))
    for p in f.params:
        if isinstance(p, CP):
            e = ('(*%s)' if p.mode == 'ptr' else '%s') % p.name
            if p.mode != 'cref' and not p.take:
                o.append('%s = fl_%s();' % (e, p.k.name))
            if p.take:
                o.append('delete %s;' % p.name)
            if p.is_out():
                o.append('vh_ev("out"); lg_%s(%s);' % (p.k.name, e))
    if isinstance(f.ret, tuple):
        k = f.ret[1]
        if f.ret[0] == 'val':
            o.append('%s r = fl_%s(); vh_ev("out"); lg_%s(r); return r;' % (k.ctype, k.name, k.name))
        else:
            o.append('delete own_%s; own_%s = new %s(fl_%s()); vh_ev("out"); lg_%s(*own_%s); return *own_%s;' % (k.name, k.name, k.ctype, k.name, k.name, k.name, k.name))
    elif f.ret != 'void':
        o.append('return %s;' % gen.newv(P(f.ret, 'r'), f.name + '.r'))
    return '\n  '.join(o)


def rtype(f):
    if isinstance(f.ret, tuple):
        return f.ret[1].ctype + ('&' if f.ret[0] == 'ref' else '')
    return f.ret


def sig(f):
    return '%s %s(%s)' % (rtype(f), f.name, ', '.join('%s %s' % (p.ctype, p.name) for p in f.params))


def kc_src(kc):
    """class with container powers that stores a container"""
    k = kc.k
    return '''struct %(n)s { %(t)s c; static int live; typedef %(t)s::iterator %(it)s; %(n)s() { live++; } %(n)s(const %(n)s &o) : c(o.c) { live++; } ~%(n)s() { live--; }
  %(it)s %(b)s() { return c.begin(); } %(it)s %(e)s() { return c.end(); } };
%(n)s %(n)s_make();''' % dict(n=kc.name, t=k.ctype, it=kc.iterator, b=kc.begin, e=kc.end)


class KC(object):
    """class with add_container_traits"""
    def __init__(self, name, k, begin='begin', end='end', iterator='iterator', sub=False):
        self.name, self.k, self.begin, self.end, self.iterator, self.sub = name, k, begin, end, iterator, sub


def header(classes, ks, funcs, kcs):
    o = ['#ifndef LIB_H', '#define LIB_H', '#include "vh.h"', '#include <memory>', '#include <vector>', '#include <list>', '#include <deque>', '#include <set>',
         '#include <map>', '#include <unordered_map>', '#include <iostream>', '#include <sstream>', gen.EXC_SRC, 'static inline int vh_int32(const char *n) { return (int) vh_int(n, 32); }']
    o += [cls_decl(c) for c in classes]
    for k in ks:
        o.append(dflt(k))
    o += [sig(f) + ';' for f in funcs]
    o += [kc_src(k) for k in kcs]
    o.append('#endif')
    return '\n'.join(o) + '\n'


def dflt(k):
    """value of the default argument: a container with one element"""
    v = {'int': '7', 'std::string': 'std::string("d")', 'double': '2.0', 'uint8_t': '7', 'int16_t': '7', 'bool': 'true'}
    if k.kind == 'map' or not isinstance(k.val, P):
        return 'static inline %s dflt_%s() { return %s(); }' % (k.ctype, k.name, k.ctype)
    return 'static inline %s dflt_%s() { %s c; c.%s(%s); return c; }' % (k.ctype, k.name, k.ctype, 'push_back' if k.kind == 'seq' else 'insert', v[k.val.ctype])


def source(classes, ks, funcs, kcs):
    o = ['#include "lib.h"', gen.RT]
    o += ['int %s::live;' % c.name for c in classes] + ['int %s::live;' % k.name for k in kcs]
    o += [k_src(k) for k in ks]
    for f in funcs:
        o.append('%s {\n  %s\n}' % (sig(f), body(f)))
    for kc in kcs:
        o.append('%s %s_make() { %s r; r.c = fl_%s(); vh_ev("out"); lg_%s(r.c); return r; }' % (kc.name, kc.name, kc.name, kc.k.name, kc.k.name))
    o.append('extern "C" void vh_reset() { delete g_str; g_str = NULL; %s }' % ' '.join('delete own_%s; own_%s = NULL;' % (k.name, k.name) for k in ks))
    o.append('extern "C" int vh_live() { return %s; }' % ' + '.join(['0'] + ['%s::live' % c.name for c in classes] + ['%s::live' % k.name for k in kcs]))
    return '\n'.join(o) + '\n'


def generate(name, classes, ks, funcs, kcs, outfile):
    from pybindgen import Module, FileCodeSink, param, retval, Parameter
    import gen_obj
    m = Module(name)
    m.add_include('"lib.h"')
    made = {}
    for c in classes:
        gen_obj.declare_class(m, c, made)
    for c in classes:
        gen_obj.declare_members(c, made[c.name])
    for k in ks:
        v = retval(elt_type(k.val))
        m.add_container(k.ctype, v if k.key is None else (retval(elt_type(k.key)), v), k.ctag, custom_name=k.name)
    for kc in kcs:
        c = m.add_class(kc.name, **(dict(allow_subclassing=True) if kc.sub else {}))
        c.add_constructor([])
        c.add_copy_constructor()
        k = kc.k
        v = retval(elt_type(k.val))
        kw = {}
        if kc.begin != 'begin':
            kw = dict(begin_method=kc.begin, end_method=kc.end, iterator_type=kc.iterator)
        c.add_container_traits(v if k.key is None else (retval(elt_type(k.key)), v), is_mapping=k.key is not None, **kw)
        m.add_function(kc.name + '_make', retval(kc.name), [])
    for f in funcs:
        ps = []
        for p in f.params:
            if isinstance(p, CP):
                kw = {}
                if p.dir != 'in':
                    kw['direction'] = getattr(Parameter, gen.DIRS[p.dir])
                if p.default:
                    kw['default_value'] = p.default
                if p.mode == 'ptr' and p.dir == 'in':
                    kw['transfer_ownership'] = p.take
                ps.append(param(p.ctype, p.name, **kw))
            else:
                ps += gen.pparams(type('x', (), dict(params=[p])))
        m.add_function(f.name, None if f.ret == 'void' else retval(rtype(f)), ps)
    with open(outfile, 'w') as o:
        m.generate(FileCodeSink(o))
