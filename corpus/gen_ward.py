"""custodians and wards: description, C++ code, generator calls.
C: custodian that Python can subclass; D: derived from it; W: ward; E: ward with operator ==; N: class whose instances take no attributes"""
import gen

KINDS = ('C', 'D', 'W', 'E', 'N')
SUBS = ('C', 'D')


class WF(object):
    """params: (class, mode), mode: ref, ptr, nul (pointer, None allowed), def (pointer, may be omitted), val; rels: (custodian, ward, postcall);
    ret: None, 'int', 'new X' (owned), 'see X' (internal reference); kind: func, meth, ctor; style: param (custodian= of the parameter) or add"""
    def __init__(self, name, kind, params, rels, ret=None, on=None, style='add', throw=False, tail=False):
        self.name, self.kind, self.params, self.rels, self.ret, self.on, self.style, self.throw, self.tail = name, kind, params, rels, ret, on, style, throw, tail


FUNCS = [
    WF('lnk', 'func', [('C', 'ref'), ('W', 'ptr')], [(1, 2, None)], style='param'),
    WF('lnk_post', 'func', [('C', 'ref'), ('W', 'ptr')], [(1, 2, True)]),
    WF('lnk_two', 'func', [('C', 'ref'), ('W', 'ptr'), ('E', 'ptr')], [(1, 2, None), (1, 3, None)], style='param'),
    WF('lnk_mix', 'func', [('C', 'ref'), ('W', 'ref'), ('E', 'ptr')], [(1, 2, False), (1, 3, True)]),
    WF('lnk_nul', 'func', [('C', 'nul'), ('W', 'nul')], [(1, 2, None)]),
    WF('lnk_nul_post', 'func', [('W', 'nul'), ('C', 'nul')], [(2, 1, True)]),
    WF('lnk_def', 'func', [('C', 'ref'), ('W', 'def')], [(1, 2, None)], style='param'),
    WF('lnk_val', 'func', [('C', 'ref'), ('W', 'val')], [(1, 2, None)]),
    WF('lnk_d', 'func', [('D', 'ref'), ('E', 'ref')], [(1, 2, None)]),
    WF('lnk_n', 'func', [('N', 'ref'), ('W', 'ref')], [(1, 2, None)]),
    WF('lnk_n_post', 'func', [('N', 'ref'), ('W', 'ref')], [(1, 2, True)], ret='int'),
    WF('chain', 'func', [('C', 'ref'), ('D', 'ref'), ('W', 'ref')], [(1, 2, None), (2, 3, None)]),
    WF('both', 'func', [('C', 'ref'), ('C', 'ref')], [(1, 2, None), (2, 1, None)]),
    WF('lnk_throw', 'func', [('C', 'ref'), ('W', 'ref')], [(1, 2, None)], throw=True),
    WF('lnk_throw_post', 'func', [('C', 'ref'), ('W', 'ref')], [(1, 2, True)], throw=True, ret='int'),
    WF('lnk_tail', 'func', [('C', 'ref'), ('W', 'ref')], [(1, 2, None)], tail=True),
    WF('ret_int', 'func', [('C', 'ref'), ('W', 'ref')], [(1, 2, True)], ret='int'),
    WF('ret_nul', 'func', [('C', 'ref'), ('W', 'ref')], [(1, 2, True)], ret='new W'),
    WF('ret_ward', 'func', [('C', 'ref')], [(1, -1, None)], ret='new W', style='param'),
    WF('ret_cust', 'func', [('W', 'ref')], [(-1, 1, None)], ret='new C'),
    WF('ret_n', 'func', [('W', 'ref')], [(-1, 1, None)], ret='new N'),
    WF('hold', 'meth', [('W', 'ptr')], [(0, 1, None)], on='C', style='param'),
    WF('into', 'meth', [('C', 'ref')], [(1, 0, None)], on='W'),
    WF('into_post', 'meth', [('C', 'nul')], [(1, 0, True)], on='E', ret='int'),
    WF('give', 'meth', [], [(0, -1, None)], on='C', ret='new E', style='param'),
    WF('view', 'meth', [], [(-1, 0, None)], on='W', ret='see C', style='param'),
    WF('peer', 'meth', [], [(-1, 0, None)], on='C', ret='see D', style='param'),
    WF('seen', 'meth', [('C', 'ref')], [(-1, 0, None), (1, -1, None)], on='W', ret='see D', style='param'),
    WF('give2', 'meth', [('C', 'ref'), ('W', 'ptr')], [(1, -1, None), (0, 2, None)], on='C', ret='new E', style='param'),
    WF('ov', 'meth', [('W', 'ptr')], [(0, 1, None)], on='C', style='param'),
    WF('ov', 'meth', [('E', 'ref'), ('W', 'ref')], [(0, 2, None)], on='C'),
    WF('C', 'ctor', [('W', 'ptr')], [(0, 1, None)], on='C', style='param'),
    WF('C', 'ctor', [('E', 'nul'), ('W', 'ref')], [(0, 1, None), (0, 2, None)], on='C'),
    WF('W', 'ctor', [('C', 'ref')], [(1, 0, None)], on='W'),
]
for _i, _f in enumerate(FUNCS):
    _f.id = '%d_%s' % (_i, _f.name)

PT = dict(ref='%s &', ptr='%s *', nul='%s *', val='%s ')


def sig(f):
    ps = [PT[m if m != 'def' else 'ptr'] % c + 'a%d' % i + (' = NULL' if m == 'def' else '') for i, (c, m) in enumerate(f.params)]
    if f.tail:
        ps.append('short z')
    return '(%s)' % ', '.join(ps)


def rtype(f):
    return {None: 'void ', 'int': 'int '}.get(f.ret) or f.ret.split()[1] + ' *'


def header():
    o = ['#ifndef LIB_H', '#define LIB_H', '#include "vh.h"', gen.EXC_SRC, 'extern int g_live;', 'int live();']
    o += ['struct %s;' % k for k in KINDS]
    for k in ('W', 'E', 'C', 'D', 'N'):
        o.append('struct %s%s {' % (k, ' : C' if k == 'D' else ''))
        if k != 'D':
            o.append('  int v; %s(int x = 0) : v(x) { g_live++; } %s(const %s &o) : v(o.v) { g_live++; } ~%s() { v = -77; g_live--; }' % (k, k, k, k))
        else:
            o.append('  D(int x = 0) : C(x) {}')
        for f in FUNCS:
            if f.on == k and f.kind == 'ctor':
                o.append('  %s%s : v(0) { g_live++; }' % (k, sig(f)))
            elif f.on == k:
                o.append('  %s%s%s;' % (rtype(f), f.name, sig(f)))
        if k == 'E':
            o.append('  bool operator==(const E &o) const { return v == o.v; } bool operator!=(const E &o) const { return v != o.v; }')
        o.append('};')
    for f in FUNCS:
        if f.kind == 'func':
            o.append('%s%s%s;' % (rtype(f), f.name, sig(f)))
    o.append('#endif')
    return '\n'.join(o) + '\n'


def source():
    o = ['#include "lib.h"', gen.RT, 'int g_live; int live() { return g_live; }', 'static C g_c(3); static D g_d(4);']
    for f in FUNCS:
        if f.kind == 'ctor':
            continue
        b = ['vh_ev("%s");' % f.name]
        if f.throw:
            b.append('if (vh_choose("%s.t", 2)) { MsgErr e("m"); throw e; }' % f.id)
        if f.ret == 'int':
            b.append('return 5;')
        elif f.ret and f.ret.startswith('new'):
            if f.name == 'ret_nul':
                b.append('if (vh_choose("%s.n", 2)) return NULL;' % f.id)
            b.append('return new %s(6);' % f.ret.split()[1])
        elif f.ret:
            b.append('return &g_%s;' % f.ret.split()[1].lower())
        o.append('%s%s%s%s { %s }' % (rtype(f), f.on + '::' if f.on else '', f.name, sig(f).replace(' = NULL', ''), ' '.join(b)))
    o.append('extern "C" void vh_reset() { delete g_str; g_str = NULL; }')
    o.append('extern "C" int vh_live() { return g_live - 2; }')
    return '\n'.join(o) + '\n'


def generate(name, outfile):
    from pybindgen import Module, FileCodeSink, param, retval
    m = Module(name)
    m.add_include('"lib.h"')
    ks = {}
    exc = m.add_exception('MsgErr', message_rvalue='%(EXC)s.what()')
    for k in ('W', 'E', 'C', 'D', 'N'):
        kw = dict(allow_subclassing=True) if k in SUBS else {}
        if k == 'D':
            kw = dict(parent=ks['C'])
        ks[k] = m.add_class(k, **kw)
    m.add_function('live', 'int', [])
    for k in ('W', 'E', 'C', 'D', 'N'):
        ks[k].add_constructor([param('int', 'x')])
        ks[k].add_instance_attribute('v', 'int')
    ks['E'].add_binary_comparison_operator('==')
    ks['E'].add_binary_comparison_operator('!=')
    for f in FUNCS:
        by = {}
        if f.style == 'param':
            by = dict((w, c) for c, w, p in f.rels)
        ps = []
        for i, (c, md) in enumerate(f.params):
            kw = {}
            if i + 1 in by:
                kw['custodian'] = by[i + 1]
            if md in ('ptr', 'nul', 'def'):
                kw['transfer_ownership'] = False
            if md == 'nul':
                kw['null_ok'] = True
            if md == 'def':
                kw['default_value'] = 'NULL'
            ps.append(param({'ref': c + '&', 'val': c}.get(md, c + '*'), 'a%d' % i, **kw))
        if f.tail:
            ps.append(param('int16_t', 'z'))
        r = None
        if f.ret == 'int':
            r = retval('int')
        elif f.ret:
            how, c = f.ret.split()
            kw = dict(caller_owns_return=True) if how == 'new' else dict(return_internal_reference=True) if f.style == 'param' else dict(reference_existing_object=True)
            if -1 in by:
                kw['custodian'] = by[-1]
            r = retval(c + '*', **kw)
        kw = dict(throw=[exc]) if f.throw else {}
        if f.kind == 'func':
            w = m.add_function(f.name, r, ps, **kw)
        elif f.kind == 'meth':
            w = ks[f.on].add_method(f.name, r, ps, **kw)
        else:
            w = ks[f.on].add_constructor(ps)
        if f.style != 'param':
            for c, wd, post in f.rels:
                w.add_custodian_and_ward(c, wd, postcall=post)
    with open(outfile, 'w') as o:
        m.generate(FileCodeSink(o))
