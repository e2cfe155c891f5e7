"""corpus module 1: functions with scalar, string and PyObject parameters and results"""
from gen import ENUMS, P, F, sig, body, RT, pparams, pret

FUNCS = []


def add(*a, **k):
    FUNCS.append(F(*a, **k))


# every by-value integer handler, with and without default, and its return
for _i, _t in enumerate(['int', 'unsigned int', 'uint16_t', 'int16_t', 'uint8_t', 'int8_t', 'unsigned long long', 'unsigned long', 'long',
                         'long long', 'size_t']):
    add('v%d' % _i, _t, [P(_t, 'a')])
    add('w%d' % _i, 'void', [P(_t, 'a'), P(_t, 'b', default='7', dval=7)])
# references
for _i, _t in enumerate(['int', 'unsigned int', 'uint16_t', 'int16_t', 'uint8_t', 'int8_t', 'bool', 'double', 'float']):
    add('ri%d' % _i, 'void', [P(_t + '&', 'a', 'in')])
    add('ro%d' % _i, 'int', [P(_t + '&', 'a', 'out')])
    add('rb%d' % _i, 'void', [P(_t + '&', 'a', 'inout')])
for _i, _t in enumerate(['unsigned long long', 'unsigned long', 'long', 'long long']):
    add('rj%d' % _i, 'void', [P(_t + '&', 'a', 'in')])
# pointers
for _i, _t in enumerate(['int', 'unsigned int', 'uint8_t', 'int8_t', 'uint16_t', 'bool', 'double', 'float']):
    add('pi%d' % _i, 'void', [P(_t + '*', 'a', 'in')])
    add('po%d' % _i, 'int', [P(_t + '*', 'a', 'out')])
    add('pb%d' % _i, 'void', [P(_t + '*', 'a', 'inout')])
# bool, float, double, char, strings, objects
for _i, _t in enumerate(['bool', 'double', 'float', 'char', 'std::string']):
    add('x%d' % _i, _t, [P(_t, 'a')])
add('y0', 'void', [P('bool', 'a', default='true', dval=1)])
add('y1', 'void', [P('double', 'a'), P('double', 'b', default='2.5', dval=2.5)])
add('y3', 'void', [P('char', 'a', default="'q'", dval=113)])
add('y4', 'void', [P('std::string', 'a', default='"dflt"', dval=b'dflt')])
add('z0', 'char*', [P('char*', 'a')])
add('z1', 'void', [P('int', 'b'), P('char*', 'a', default='NULL', dval='null')])
add('s0', 'void', [P('std::string&', 'a', 'in')])
add('s1', 'int', [P('std::string&', 'a', 'out')])
add('s2', 'void', [P('std::string&', 'a', 'inout')])
add('s3', 'void', [P('std::string&', 'a', 'in', default='"dd"', dval=b'dd')])
add('s4', 'void', [P('std::string*', 'a', 'in')])
add('s5', 'std::string', [P('std::string*', 'a', 'out'), P('int', 'b')])
add('s6', 'void', [P('std::string*', 'a', 'inout')])
add('s7', 'std::string&', [P('int', 'b')])
add('o0', 'void', [P('PyObject*', 'a', transfer_ownership=False)])
add('o1', 'PyObject*', [P('PyObject*', 'a', transfer_ownership=False)], caller_owns=True)
add('o2', 'PyObject*', [P('PyObject*', 'a', transfer_ownership=False)], caller_owns=False)
# enumerations
add('e0', 'Col', [P('Col', 'a')])
add('e1', 'void', [P('Col', 'a', default='BLUE', dval=7)])
add('e2', 'int', [P('Col&', 'a', 'out')])
add('e3', 'void', [P('Col&', 'a', 'inout')])
add('e4', 'void', [P('Col*', 'a', 'in')])
add('e5', 'void', [P('Col*', 'a', 'out'), P('Col*', 'b', 'inout')])
add('e6', 'void', [P('Col&', 'a', 'in')])
# arrays
add('a0', 'void', [P('float*', 'a', 'in', array_length=2)])
add('a1', 'int', [P('float*', 'a', 'out', array_length=2)])
add('a2', 'void', [P('unsigned int*', 'a', 'out', array_length=2)])
add('a3', 'void', [P('unsigned int*', 'a', 'in', array_length=2)])
# several parameters, defaults, outputs
add('c0', 'int', [P('int', 'a'), P('bool', 'b'), P('double', 'c')])
add('c1', 'double', [P('std::string', 's'), P('int&', 'o', 'out'), P('uint8_t', 'k'), P('bool*', 'q', 'out')])
add('c2', 'bool', [P('int', 'a'), P('uint16_t', 'b', default='9', dval=9), P('std::string', 's', default='"x"', dval=b'x')])
add('c3', 'uint16_t', [P('double&', 'a', 'inout'), P('int8_t', 'b', default='-3', dval=-3)])
add('c4', 'void', [P('char*', 's'), P('int&', 'a', 'inout'), P('std::string&', 't', 'inout')])
add('c5', 'char', [P('int&', 'a', 'out'), P('int', 'b')])
add('c6', 'char*', [P('int&', 'a', 'out')])
add('c7', 'std::string', [P('bool', 'b'), P('PyObject*', 'p', transfer_ownership=False), P('long', 'c', default='-1', dval=-1)])
add('a4', 'void', [P('float*', 'a', 'in', array_length=1), P('float*', 'b', 'in', array_length=2)])
add('p0', 'void', [P('int', 'b'), P('int*', 'a', 'in', default='NULL', dval=0, nullable=True)])
add('c8', 'void', [])
add('c9', 'int', [])


def header():
    o = ['#ifndef LIB_H', '#define LIB_H', '#include "vh.h"', ENUMS['Col'][0]]
    o += [sig(f) + ';' for f in FUNCS]
    o.append('#endif')
    return '\n'.join(o) + '\n'


def source():
    o = ['#include "lib.h"', RT, 'extern "C" void vh_reset() { delete g_str; g_str = NULL; }']
    for f in FUNCS:
        o.append('%s {\n  %s\n}' % (sig(f), body(f)))
    return '\n'.join(o) + '\n'


def generate(outfile):
    from pybindgen import Module, FileCodeSink
    m = Module('m1')
    m.add_include('"lib.h"')
    m.add_enum('Col', ['RED', 'BLUE'])
    for f in FUNCS:
        m.add_function(f.name, pret(f), pparams(f))
    with open(outfile, 'w') as o:
        m.generate(FileCodeSink(o))


import sc_scalar
SCENARIOS = sc_scalar.scenarios(FUNCS)
