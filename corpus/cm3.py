"""corpus module 3: class instances as arguments and results under every memory policy, no wrapper registry"""
import gen_obj
import objset
from gen_obj import C

A = C('A')
S = C('S', sub=True)
Q = C('Q', policy='refm')
T = C('T', policy='refm', sub=True)
U = C('U', policy='reff')
V = C('V', policy='free')
W = C('W', policy='shared')
X = C('X', policy='shared', sub=True)
N = C('N', copy=False)
B = C('B', virt=True)
D = C('D', parent=B, virt=True)
CLASSES = [A, S, Q, T, U, V, W, X, N, B, D]
FUNCS = [f for c in CLASSES for f in objset.funcs_for(c)]


def header():
    return gen_obj.header(CLASSES, FUNCS)


def source():
    return gen_obj.source(CLASSES, FUNCS)


def generate(outfile):
    gen_obj.generate('m3', CLASSES, FUNCS, outfile)


SCENARIOS = objset.scenarios(CLASSES, FUNCS)
