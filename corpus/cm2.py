"""corpus module 2: overloads, C++ exceptions, released interpreter lock; functions, methods, constructors"""
import gen
from gen import P, F, sig, body, RT, pparams, pret

FUNCS = []
T11, T12, T13 = ('P11',), ('P12',), ('P13',)


def add(*a, **k):
    FUNCS.append(F(*a, **k))


def ov(pyname, i, ret, params, **k):
    add('%s_%d' % (pyname, i), ret, params, pyname=pyname, ov=True, **k)


# overloads
ov('oa', 0, 'int', [P('int', 'a')])
ov('oa', 1, 'int', [P('std::string', 'a')])
ov('ob', 0, 'void', [P('int8_t', 'a')])
ov('ob', 1, 'void', [P('int', 'a')])
ov('ob', 2, 'void', [P('double', 'a')])
ov('oc', 0, 'int', [P('int', 'a'), P('int', 'b', default='5', dval=5)])
ov('oc', 1, 'int', [P('double', 'a')])
ov('oc', 2, 'int', [])
ov('od', 0, 'void', [P('int', 'a')])
ov('od', 1, 'void', [P('int', 'b'), P('double', 'c', default='0.5', dval=.5)])
ov('oe', 0, 'void', [P('bool', 'a')])
ov('oe', 1, 'void', [P('int', 'a')])
ov('of', 0, 'std::string', [P('std::string', 'a')])
ov('of', 1, 'std::string', [P('PyObject*', 'a', transfer_ownership=False)])
ov('og', 0, 'int', [P('int', 'a')], throw=('Err',))
ov('og', 1, 'int', [P('double', 'a')], throw=('MsgErr',))
ov('oh', 0, 'void', [P('uint16_t', 'a'), P('int&', 'o', 'out')])
ov('oh', 1, 'void', [P('unsigned long', 'a'), P('std::string', 'b')])
ov('oi', 0, 'void', [P('std::string', 'a')], unblock=True)
ov('oi', 1, 'void', [P('long', 'a')])
# exceptions
add('t0', 'void', [], throw=('Err',), tags=T13)
add('t1', 'int', [P('int', 'a')], throw=('SubErr', 'Err'), tags=T13)
add('t2', 'int', [P('int', 'a')], throw=('Err', 'SubErr'), tags=T13)
add('t3', 'std::string', [P('std::string', 's'), P('PyObject*', 'o', transfer_ownership=False)], throw=('MsgErr', 'StdErr'), tags=T13)
add('t4', 'bool', [P('bool', 'a'), P('double&', 'd', 'out'), P('std::string&', 's', 'inout')], throw=('StdErr', 'SubErr'), tags=T13)
add('t5', 'PyObject*', [P('PyObject*', 'o', transfer_ownership=False)], throw=('MsgErr',), caller_owns=True, tags=T13)
add('t6', 'int', [P('int8_t', 'a', default='1', dval=1)], throw=('Err',), unblock=True, tags=('P13', 'P12'))
add('t7', 'std::string', [P('std::string', 's')], throw=('SubErr', 'MsgErr'), unblock=True, tags=('P13', 'P12'))
# released lock
add('u0', 'int', [P('int', 'a'), P('std::string&', 's', 'inout')], unblock=True, tags=T12)
add('u1', 'std::string', [P('bool', 'a'), P('uint8_t', 'b')], unblock=True, tags=T12)
add('u2', 'void', [P('char*', 'a'), P('double', 'd', default='1.5', dval=1.5)], unblock=True, tags=T12)
add('u3', 'char', [P('float*', 'a', 'in', array_length=1), P('PyObject*', 'o', transfer_ownership=False)], unblock=True, tags=T12)
# a class
K = dict(cls='K')
add('K', 'void', [], ctor=True, cls='K')
FUNCS[-1].kw['ov'] = True
add('K1', 'void', [P('int', 'a')], ctor=True, ov=True, pyname='K', **K)
add('K2', 'void', [P('std::string', 'a'), P('double', 'b', default='1.0', dval=1.0)], ctor=True, ov=True, pyname='K', throw=('Err',), **K)
add('Km0', 'int', [P('int', 'a')], pyname='m', ov=True, **K)
add('Km1', 'int', [P('std::string', 'a')], pyname='m', ov=True, **K)
add('Km2', 'void', [P('double', 'a'), P('double', 'b')], pyname='m', ov=True, throw=('SubErr',), **K)
add('Ks0', 'bool', [P('double', 'a')], pyname='s', ov=True, static=True, **K)
add('Ks1', 'bool', [P('std::string', 'a'), P('int', 'b', default='2', dval=2)], pyname='s', ov=True, static=True, **K)
add('Kt', 'std::string', [P('int', 'a'), P('bool&', 'b', 'inout')], pyname='t', throw=('SubErr', 'Err', 'StdErr'), tags=T13, **K)
add('Ku', 'double', [P('std::string', 'a'), P('int&', 'b', 'out')], pyname='u', unblock=True, tags=T12, **K)
add('Kv', 'void', [], pyname='v', unblock=True, static=True, tags=T12, **K)
add('Kw', 'int', [P('long', 'a')], pyname='w', unblock=True, throw=('StdErr',), tags=('P12', 'P13'), **K)
add('Kx', 'uint8_t', [P('int16_t', 'a'), P('PyObject*', 'b', transfer_ownership=False)], pyname='x', throw=('MsgErr',), static=True, tags=T13, **K)
add('L', 'void', [P('int', 'a'), P('std::string', 'b')], ctor=True, cls='L', unblock=True, tags=T12)
add('M', 'void', [P('int', 'a'), P('std::string', 'b')], ctor=True, cls='M', throw=('SubErr', 'StdErr'), tags=T13)
add('N', 'void', [P('bool', 'a')], ctor=True, cls='N', throw=('Err',), unblock=True, tags=('P12', 'P13'))
CLASSES = ('K', 'L', 'M', 'N')


def header():
    o = ['#ifndef LIB_H', '#define LIB_H', '#include "vh.h"', gen.EXC_SRC, 'extern int g_live;']
    for c in CLASSES:
        o.append('struct %s {\n  int id; struct Cnt { Cnt() { g_live++; } Cnt(const Cnt &) { g_live++; } ~Cnt() { g_live--; } } cnt;' % c)
        for f in FUNCS:
            if f.cls == c:
                o.append('  %s;' % (sig(f)[5:] if f.ctor else ('static ' if f.static else '') + sig(f)))
        o.append('};')
    o += [sig(f) + ';' for f in FUNCS if not f.cls]
    o.append('#endif')
    return '\n'.join(o) + '\n'


def source():
    o = ['#include "lib.h"', RT, 'int g_live;', 'extern "C" void vh_reset() { delete g_str; g_str = NULL; } extern "C" int vh_live() { return g_live; }']
    for f in FUNCS:
        s = sig(f)
        b = body(f)
        if f.cls:
            s = '%s::%s' % (f.cls, s[5:]) if f.ctor else '%s %s::%s' % (f.ret, f.cls, s[len(f.ret) + 1:])
        if f.ctor:
            b = 'id = vh_id(); ' + b
        o.append('%s {\n  %s\n}' % (s, b))
    return '\n'.join(o) + '\n'


def generate(outfile):
    from pybindgen import Module, FileCodeSink
    m = Module('m2')
    m.add_include('"lib.h"')
    ex = gen.add_exceptions(m)
    ks = dict((c, m.add_class(c)) for c in CLASSES)
    for f in FUNCS:
        kw = dict(throw=[ex[t] for t in f.throw])
        if 'unblock' in f.kw:
            kw['unblock_threads'] = f.kw['unblock']
        if f.ctor:
            ks[f.cls].add_constructor(pparams(f), **kw)
        elif f.cls:
            ks[f.cls].add_method(f.pyname, pret(f), pparams(f), is_static=bool(f.static), **kw)
        else:
            m.add_function(f.pyname, pret(f), pparams(f), **kw)
    with open(outfile, 'w') as o:
        m.generate(FileCodeSink(o))


import sc_scalar
SCENARIOS = sc_scalar.scenarios(FUNCS) + sc_scalar.ov_scenarios(FUNCS)
