"""corpus module 15: the wrapper registry together with class hierarchies and narrowing: every depth, with and without Python
subclasses, every memory policy; built the way g++ sees the generated code"""
import gen_obj
import objset
import sc_obj
from gen import P
from gen_obj import C, O, R, OF

CXX = 'g++'
IR_FLAGS = ['-U__clang__']
B = C('B', virt=True, narrow=True)
D = C('D', parent=B, virt=True)
G = C('G', parent=D, virt=True)
U = C('U', parent=G, virt=True, reg=False)
H = C('H', parent=U, virt=True, regparent=G)
SB = C('SB', virt=True, narrow=True)
SD = C('SD', parent=SB, virt=True)
SG = C('SG', parent=SD, virt=True, sub=True)
RB = C('RB', policy='refm', virt=True, narrow=True, copy=False)
RD = C('RD', parent=RB, virt=True, copy=False)
RG = C('RG', parent=RD, virt=True, copy=False)
FB = C('FB', policy='reff', virt=True, narrow=True, sub=True)
FD = C('FD', parent=FB, virt=True)
FG = C('FG', parent=FD, virt=True)
VB = C('VB', policy='free', virt=True, narrow=True)
VD = C('VD', parent=VB, virt=True)
VG = C('VG', parent=VD, virt=True)
PB = C('PB', policy='shared', virt=True, narrow=True)
PD = C('PD', parent=PB, virt=True)
PG = C('PG', parent=PD, virt=True)
FAMS = [[B, D, G, U, H], [SB, SD, SG], [RB, RD, RG], [FB, FD, FG], [VB, VD, VG], [PB, PD, PG]]
CLASSES = [c for f in FAMS for c in f]
FUNCS = []
for fam in FAMS:
    c = fam[0]
    n = c.name
    c.dyn = [x.name for x in fam]
    FUNCS += [OF(n + '_new', R(c, 'new'), dyn=c.dyn), OF(n + '_exist', R(c, 'exist')), OF(n + '_ptr', 'void', [O(c, 'x', 'ptr')]),
              OF(n + '_pass', R(c, 'pass', **({} if c.pol == 'shared' else dict(reference_existing_object=True))), [O(c, 'x', 'ptr')])]
    if c.pol != 'shared':
        FUNCS += [OF(n + '_take', 'void', [O(c, 'x', 'ptr', transfer_ownership=True)]), OF(n + '_gift', R(c, 'gift'))]
    for x in fam[1:]:
        if x.reg:
            FUNCS += [OF(x.name + '_pass', R(x, 'pass', **({} if c.pol == 'shared' else dict(reference_existing_object=True))), [O(x, 'x', 'ptr')])]


def header():
    return gen_obj.header(CLASSES, FUNCS)


def source():
    return gen_obj.source(CLASSES, FUNCS)


def generate(outfile):
    from pybindgen import settings, wrapper_registry
    settings.wrapper_registry = wrapper_registry.StdMapWrapperRegistry
    gen_obj.generate('m15', CLASSES, FUNCS, outfile)


SCENARIOS = objset.scenarios(CLASSES, FUNCS, ('P20', 'P19', 'P10'), registry=True, lives=False)
for fam in FAMS:
    c = fam[0]
    ops = ['new', 'exist', 'poke', 'drop', 'write', 'lend', 'again']
    if c.pol != 'shared':
        ops += ['gift', 'give']
    SCENARIOS += sc_obj.Life(c, ops, 3, ('P10', 'P19', 'P20'), True, [x for x in fam if x.reg and x is not D]).split()
