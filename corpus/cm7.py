"""corpus module 7: instance and static attributes"""
import gen_attr
from gen_attr import At, AC
import sc_attr

TY = [('int', '3'), ('unsigned int', '4'), ('uint16_t', '5'), ('int16_t', '-6'), ('uint8_t', '7'), ('int8_t', '-8'), ('unsigned long long', '9'),
      ('long', '-10'), ('bool', 'true'), ('double', '1.5'), ('float', '2.5'), ('char', "'c'"), ('std::string', '"st"')]
K = AC('K', [At('i%d' % i, t, v) for i, (t, v) in enumerate(TY)] +
       [At('g%d' % i, t, v, how='getset') for i, (t, v) in enumerate(TY)] +
       [At('c0', 'int', '21', const=True), At('c1', 'std::string', '"k"', const=True), At('c2', 'double', '2.0', how='get', const=True),
        At('f0', 'int', '31', how='free'), At('f1', 'std::string', '"f"', how='free', pyname='effone'), At('f2', 'bool', 'false', how='free', const=True),
        At('n0', 'int16_t', '33', pyname='enzero'), At('e0', 'Col', 'RED'), At('e1', 'Col', 'BLUE', how='getset'),
        At('o0', 'A', '41', kind='A'), At('o1', 'A', '42', kind='A', how='getset'), At('o2', 'A', '43', kind='A', const=True), At('w0', 'std::shared_ptr<W>', '', kind='W'),
        At('w1', 'std::shared_ptr<W>', '', kind='W', how='getset'), At('r0', 'A*', 'NULL', kind='Aref', const=True)])
S = AC('S', [At('i0', 'int', '51'), At('s0', 'int', '52', static=True), At('s1', 'std::string', '', static=True), At('s2', 'bool', 'false', static=True),
             At('s3', 'uint8_t', '9', static=True), At('s4', 'double', '0.5', static=True), At('s5', 'A', '', static=True, kind='A'),
             At('s6', 'int', '53', static=True, const=True)])
L = AC('L', [At('l0', 'int', '61'), At('l1', 'int', '62', static=True)], parent=S)
M = AC('M', [At('m0', 'int', '71', how='getset')], parent=K)
CLASSES = [K, S, L, M]


def header():
    return gen_attr.header(CLASSES)


def source():
    return gen_attr.source(CLASSES)


def generate(outfile):
    gen_attr.generate('m7', CLASSES, outfile)


SCENARIOS = sc_attr.scenarios(CLASSES)
