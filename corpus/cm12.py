"""corpus module 12: operators and comparisons"""
import gen_op
import sc_op
from gen_op import OC

S = OC('S')
D = OC('D', num={'-': [('D', 'D', 'D')]})
V = OC('V', num={'+': [('V', 'V', 'V'), ('V', 'V', 'int')], '-': [('D', 'V', 'V')], '*': [('V', 'V', 'double'), ('V', 'S', 'V')], '/': [('V', 'V', 'int'), ('D', 'V', 'S')],
                 '+=': ['V', 'int'], '*=': ['double'], '/=': ['S']}, neg=['V'])
VB = OC('VB', parent=V)
VC = OC('VC', num={'+': [('VC', 'VC', 'VC')], '+=': ['VC']}, parent=V)
U = OC('U', neg=['D'])
I = OC('I', num={'-=': ['I'], '*=': ['std::string', 'I']})
T = OC('T', num={'+': [('T', 'T', 'double'), ('T', 'T', 'int')], '/': [('T', 'T', 'std::string')]}, sub=True, cmp=('==',))
R = OC('R', num={'+': [('R', 'R', 'R')]}, cmp=('==', '<'), policy=True)
G = OC('G', num={'+': [('G', 'G', 'V')], '*': [('V', 'G', 'G')]}, cmp=('>=',), ns='gn')
NUMS = [S, D, V, VB, VC, U, I, T, R, G]
O = OC('O', cmp=('<', '<=', '==', '!=', '>', '>='), sub=True)
OB = OC('OB', parent=O)
OE = OC('OE', cmp=('==', '<'), parent=O)
P = OC('P', cmp=('<', '=='))
Q = OC('Q', cmp=('!=', '>='))
CLASSES = NUMS + [O, OB, OE, P, Q]


def header():
    return gen_op.header(CLASSES)


def source():
    return gen_op.source(CLASSES)


def generate(outfile):
    gen_op.generate('m12', CLASSES, outfile)


SCENARIOS = sc_op.scenarios(CLASSES)
