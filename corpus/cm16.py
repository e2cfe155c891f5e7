"""corpus module 16: virtual methods with every scalar type handler, by value, by reference and by pointer, in every direction"""
import gen
import gen_virt
import sc_virt
from gen import P
from gen_virt import VC, VF

MS = []
for i, t in enumerate(['bool', 'double', 'float', 'int', 'int8_t', 'uint8_t', 'uint16_t', 'unsigned int', 'std::string']):
    MS.append(VF('p%d' % i, 'void', [P(t + '*', 'a', 'in'), P(t + '*', 'o', 'out')], call=('plain', 'thread', 'unblock')[i % 3]))
    MS.append(VF('q%d' % i, 'int', [P(t + '*', 'b', 'inout')]))
for i, t in enumerate(['bool', 'int', 'int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'unsigned int', 'double', 'float', 'std::string']):
    MS.append(VF('r%d' % i, 'void', [P(t + '&', 'b', 'inout'), P(t + '&', 'a', 'in')]))
    MS.append(VF('s%d' % i, 'bool', [P(t + '&', 'o', 'out')], const=True))
for i, t in enumerate(['long', 'unsigned long', 'int64_t', 'uint64_t', 'long long']):
    MS.append(VF('c%d' % i, 'void', [P('const %s&' % t, 'a', 'in'), P(t, 'b')]))
for i, t in enumerate(['short', 'unsigned short', 'unsigned char', 'signed char', 'long long', 'unsigned long long', 'size_t', 'int32_t', 'uint32_t', 'Col', 'char']):
    MS.append(VF('t%d' % i, t, [P(t, 'a')], call=('plain', 'thread')[i % 2]))
MS.append(VF('e0', 'void', [P('Col&', 'o', 'out'), P('Col&', 'a', 'in')]))
MS.append(VF('e1', 'int', [P('Col&', 'o', 'inout')]))
MS.append(VF('e2', 'void', [P('Col*', 'o', 'out')]))
K = VC('K', MS)
CLASSES = [K]


def header():
    return gen_virt.header(CLASSES, gen.ENUMS['Col'][0])


def source():
    return gen_virt.source(CLASSES)


def generate(outfile):
    gen_virt.generate('m16', CLASSES, outfile, ['Col'])


SCENARIOS = sc_virt.scenarios(CLASSES)
