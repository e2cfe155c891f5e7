"""corpus module 10: multiple inheritance, inner classes, classes of namespaces"""
import gen
import sc_hier
from sc_hier import KL

X = KL('X', ['x'])
Y = KL('Y', ['y'])
M = KL('M', ['m'], [X, Y])
MM = KL('MM', ['mm'], [M])
VX = KL('VX', ['vx'], virt=True)
VY = KL('VY', ['vy'], virt=True)
VM = KL('VM', ['vm'], [VX, VY], virt=True)
PX = KL('PX', ['px'], virt=True, sub=True)
PY = KL('PY', ['py'], virt=True, sub=True)
PM = KL('PM', ['pm'], [PX, PY], virt=True, sub=True)
O = KL('O', ['o'])
OI = KL('OI', ['oi'], scope=O)
OD = KL('OD', ['od'], scope=OI)
OS = KL('OS', ['os'], [OI], scope=O)
Q = KL('Q', ['q'], ns='na')
QQ = KL('QQ', ['q2'], [Q], ns='na::nb')
QI = KL('QI', ['q3'], [QQ], scope=Q, ns='na')
# same Python-visible structure below another namespace
Z = KL('Z', ['z'], [O], ns='na::nb')
CLASSES = [X, Y, M, MM, VX, VY, VM, PX, PY, PM, O, OI, OD, OS, Q, QQ, QI, Z]


def header():
    return sc_hier.header(CLASSES)


def source():
    return sc_hier.source(CLASSES)


def generate(outfile):
    sc_hier.generate('m10', CLASSES, outfile)


SCENARIOS = sc_hier.scenarios(CLASSES)
