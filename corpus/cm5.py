"""corpus module 5: virtual methods with scalar and string arguments and results"""
import gen_virt
import sc_virt
from gen import P
from gen_virt import VC, VF

MS = [VF('v0'), VF('v1', 'int', [P('int', 'a')]), VF('v2', 'int8_t', [P('int8_t', 'a'), P('double', 'b')], const=True),
      VF('v3', 'std::string', [P('std::string', 's'), P('bool', 'b')]), VF('v4', 'bool', [P('uint8_t', 'a')], call='thread'),
      VF('v5', 'void', [P('int&', 'o', 'out')]), VF('v6', 'double', [P('int16_t&', 'o', 'inout'), P('float', 'f')], call='unblock'),
      VF('v7', 'uint16_t', [P('bool&', 'o', 'out'), P('std::string&', 's', 'inout')]), VF('v8', 'float', [P('unsigned int', 'a'), P('long', 'b')]),
      VF('v9', 'unsigned int', [P('uint8_t&', 'o', 'out'), P('double&', 'x', 'inout')], const=True), VF('v10', 'long', [P('unsigned long', 'a')]),
      VF('v11', 'void', [P('const char*', 's'), P('int', 'a')]), VF('v12', 'unsigned long', [P('uint16_t', 'k')], call='thread'),
      VF('v13', 'int16_t', [P('int*', 'o', 'out'), P('long', 'b')]), VF('v14', 'uint8_t', [P('float&', 'o', 'inout')], call='unblock'),
      VF('v15', 'void', [P('std::string', 's'), P('std::string&', 'o', 'out')]), VF('v16', 'uint64_t', [P('int64_t', 'a')]),
      VF('v17', 'int64_t', [P('uint64_t', 'a'), P('uint32_t', 'b')]), VF('v18', 'uint32_t', [P('uint16_t&', 'a', 'inout'), P('int8_t&', 'b', 'out')]),
      VF('v19', 'void', [P('int', 'a')], const=True), VF('v20', 'void', [P('int8_t', 'a')], const=True, call='thread'),
      VF('v21', 'void', [P('uint16_t', 'a'), P('int16_t&', 'o', 'out')], const=True, call='unblock'), VF('v22', 'std::string', [], const=True, call='thread'),
      VF('p0', 'int', [P('int', 'a')], vis='protected'), VF('p1', 'void', [P('std::string', 's'), P('int&', 'o', 'out')], vis='protected', call='thread'),
      VF('p2', 'bool', [], vis='protected', const=True)]
K = VC('K', MS)
Z = VC('Z', [VF('z0', pure=True), VF('z1', 'void', [P('int', 'a'), P('int&', 'o', 'out')], pure=True), VF('z2', 'int', [P('int', 'a')], pure=True),
             VF('z3', 'void', [P('bool', 'a')], vis='private')])
L0 = [VF('a', 'int', [P('int', 'x')]), VF('b', 'int', [P('int', 'x')]), VF('c', 'std::string', [P('bool', 'x')], vis='protected'), VF('e', 'void', [P('int8_t', 'x')])]
L = VC('L', L0)
M = VC('M', [VF('n', 'int', [P('int', 'x')])], parent=L, impl=('b', 'c'))
N = VC('N', [], parent=M)
CLASSES = [K, Z, L, M, N]


def header():
    return gen_virt.header(CLASSES)


def source():
    return gen_virt.source(CLASSES)


def generate(outfile):
    gen_virt.generate('m5', CLASSES, outfile)


# a class without virtual methods of its own: the inherited ones
SCENARIOS = sc_virt.scenarios(CLASSES, only={'N': [('n', 'ok'), ('n', 'none'), ('a', 'none'), ('b', 'none')]})
