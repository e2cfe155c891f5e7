"""corpus module 13: sequence, call and text protocols"""
import gen_seq
import sc_seq
from gen_seq import SQ, M

S1 = SQ('S1', {'__len__': [M('int')], '__getitem__': [M('double', 'int')], '__setitem__': [M('int', 'int', 'double')], '__contains__': [M('int', 'double')],
               '__add__': [M('S1', 'S1')], '__mul__': [M('S1', 'int')], '__iadd__': [M('S1', 'S1')], '__imul__': [M('S1', 'int')], '__call__': [M('int', 'int')]}, text=True)
S2 = SQ('S2', {'__len__': [M('size_t', const=True)], '__getitem__': [M('int', 'long long', throw=('StdErr', 'Err'))], '__setitem__': [M('bool', 'long long', 'int')],
               '__contains__': [M('bool', 'std::string')], '__call__': [M('void')], '__mul__': [M('int', 'long long')]}, sub=True)
S3 = SQ('S3', {'__len__': [M('int', fn=True, throw=('MsgErr',))], '__getitem__': [M('int', 'int', fn=True)], '__setitem__': [M('int', 'int', 'std::string', fn=True, throw=('Err',))],
               '__contains__': [M('int', 'int', fn=True, throw=('StdErr',))], '__call__': [M('int', 'int', fn=True, throw=('StdErr',)), M('int', 'std::string', 'int')],
               '__add__': [M('S3', 'int'), M('int', 'S1')], '__iadd__': [M('S3', 'double')]})
S4 = SQ('S4', {'__getitem__': [M('int', 'short'), M('double', 'long long', throw=('SubErr', 'StdErr'))],
               '__setitem__': [M('long long', 'int', 'int'), M('int', 'int', 'std::string')], '__contains__': [M('int', 'int'), M('bool', 'S1'), M('int', 'std::string')],
               '__call__': [M('int'), M('double', 'int'), M('int', 'int', 'std::string')], '__add__': [M('S4', 'S4'), M('S1', 'std::string')], '__mul__': [M('S4', 'short'), M('S4', 'long')]})
S5 = SQ('S5', {'__len__': [M('bool')], '__getitem__': [M('S1', 'unsigned int')], '__setitem__': [M('void', 'int', 'S1')], '__contains__': [M('double', 'int')],
               '__call__': [M('S1', 'S5')]}, text=True, ns='sn')
S6 = SQ('S6', {'__len__': [M('double', throw=('Err',))], '__getitem__': [M('std::string', 'int')], '__setitem__': [M('size_t', 'int', 'int', throw=('MsgErr', 'StdErr'))], '__contains__': [M('void', 'int')]})
A1 = SQ('A1', {'__len__': [M('int')], '__getitem__': [M('int', 'int')], '__call__': [M('int', 'int')], '__add__': [M('A1', 'A1')]}, text=True, sub=True)
A2 = SQ('A2', {'__len__': [M('int')]}, parent=A1)
A3 = SQ('A3', {'__getitem__': [M('double', 'int')], '__call__': [M('double', 'int')]}, parent=A1, text=True)
A4 = SQ('A4', {'__contains__': [M('int', 'int')], '__setitem__': [M('int', 'int', 'int')]}, parent=A2)
A5 = SQ('A5', {}, parent=A4)
E1 = SQ('E1', {'__len__': [M('long long', unblock=True)], '__call__': [M('int', 'int', unblock=True)], '__getitem__': [M('int', 'int', unblock=True, throw=('Err',))]})
E2 = SQ('E2', {'__getitem__': [M('int', 'int', pyerr=True)], '__setitem__': [M('int', 'int', 'double', pyerr=True)]}, text=True)
E5 = SQ('E5', {'__getitem__': [M('double', 'int', pyerr=True), M('int', 'long long')], '__len__': [M('int')]})
E3 = SQ('E3', {'__setitem__': [M('int', 'int', 'bool')]})
E4 = SQ('E4', {'__imul__': [M('E4', 'int')], '__iadd__': [M('E4', 'E4')]})
CLASSES = [S1, S2, S3, S4, S5, S6, A1, A2, A3, A4, A5, E1, E2, E3, E4, E5]


def header():
    return gen_seq.header(CLASSES)


def source():
    return gen_seq.source(CLASSES)


def generate(outfile):
    gen_seq.generate('m13', CLASSES, outfile)


SCENARIOS = sc_seq.scenarios(CLASSES)
