"""corpus module 4: as module 3 with the wrapper registry that keeps the identity of wrappers"""
import gen_obj
import objset
from gen_obj import C

A = C('A')
S = C('S', sub=True)
Q = C('Q', policy='refm')
T = C('T', policy='refm', sub=True)
U = C('U', policy='reff')
V = C('V', policy='free')
W = C('W', policy='shared')
X = C('X', policy='shared', sub=True)
N = C('N', copy=False)
B = C('B', virt=True)
D = C('D', parent=B, virt=True)
CLASSES = [A, S, Q, T, U, V, W, X, N, B, D]
FUNCS = [f for c in CLASSES for f in objset.funcs_for(c)]


def header():
    return gen_obj.header(CLASSES, FUNCS)


def source():
    return gen_obj.source(CLASSES, FUNCS)


def generate(outfile):
    from pybindgen import settings, wrapper_registry
    settings.wrapper_registry = wrapper_registry.StdMapWrapperRegistry
    gen_obj.generate('m4', CLASSES, FUNCS, outfile)


SCENARIOS = objset.scenarios(CLASSES, FUNCS, ('P10', 'P19'), registry=True)
