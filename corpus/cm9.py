"""corpus module 9: class hierarchies: narrowing of returned pointers, unregistered and partly registered chains, classes that
become subclassable in a derived class, implicit conversions; built the way g++ sees the generated code"""
import gen_obj
import objset
from gen import P
from gen_obj import C, O, R, OF

CXX = 'g++'
IR_FLAGS = ['-U__clang__']
# no memory policy
B = C('B', virt=True, narrow=True)
D = C('D', parent=B, virt=True)
G = C('G', parent=D, virt=True, bare=True)
E = C('E', parent=B, virt=True, sub=True)
F = C('F', parent=E, virt=True)
U = C('U', parent=B, virt=True, reg=False)
UD = C('UD', parent=D, virt=True, reg=False)
UE = C('UE', parent=E, virt=True, reg=False)
H = C('H', parent=UD, virt=True, regparent=D)
U2 = C('U2', parent=U, virt=True, reg=False)
U3 = C('U3', parent=U2, virt=True, reg=False)
W1 = C('W1', parent=UD, virt=True, reg=False)
W2 = C('W2', parent=W1, virt=True, reg=False)
W3 = C('W3', parent=W2, virt=True, reg=False)
HH = C('HH', parent=W2, virt=True, regparent=D)
# a base that is not narrowed
K = C('K', virt=True)
L = C('L', parent=K, virt=True, narrow=True)
M = C('M', parent=L, virt=True, bare=True)
# reference counts
RB = C('RB', policy='refm', virt=True, narrow=True, copy=False)
RD = C('RD', parent=RB, virt=True, copy=False, bare=True)
RG = C('RG', parent=RD, virt=True, copy=False, sub=True)
RU = C('RU', parent=RD, virt=True, copy=False, reg=False)
FB = C('FB', policy='reff', virt=True, narrow=True, sub=True)
FD = C('FD', parent=FB, virt=True)
# shared pointers
SB = C('SB', policy='shared', virt=True, narrow=True)
SD = C('SD', parent=SB, virt=True, bare=True)
SU = C('SU', parent=SD, virt=True, reg=False)
SS = C('SS', policy='shared', virt=True, narrow=True, sub=True)
ST = C('ST', parent=SS, virt=True)
# implicit conversions
I = C('I')
I2 = C('I2', parent=I)
N = C('N')
J = C('J', implicit=(I, N))
J2 = C('J2', parent=J)
CLASSES = [B, D, G, E, F, U, UD, UE, H, U2, U3, W1, W2, W3, HH, K, L, M, RB, RD, RG, RU, FB, FD, SB, SD, SU, SS, ST, I, I2, N, J, J2]
ROOTS = {B: [B, D, G, E, F, U, UD, UE, H, U2, U3, W1, W2, W3, HH], D: [D, G, UD, H, W1, W2, W3, HH], E: [E, F, UE], K: [K, L, M], L: [L, M], RB: [RB, RD, RG, RU], RD: [RD, RG, RU], FB: [FB, FD],
         SB: [SB, SD, SU], SD: [SD, SU], SS: [SS, ST]}
FUNCS = []
for c, ds in ROOTS.items():
    n = c.name
    dyn = [x.name for x in ds]
    if c.root is c:
        c.dyn = dyn
    FUNCS += [OF(n + '_dyn', R(c, 'new'), dyn=dyn)]
    if c.root is c:
        FUNCS += [OF(n + '_exist', R(c, 'exist')), OF(n + '_pass', R(c, 'pass', **({} if c.pol == 'shared' else dict(reference_existing_object=True))), [O(c, 'x', 'ptr')])]
        if c.pol != 'shared' and c.copy:
            FUNCS += [OF(n + '_copy', R(c, 'copy')), OF(n + '_rcptr', R(c, 'cptr')), OF(n + '_rrefexist', R(c, 'refexist'))]
    FUNCS += [OF(n + '_ptr', 'void', [O(c, 'x', 'ptr'), O(c, 'y', 'ptr', null=True)]), OF(n + '_ref', 'void', [O(c, 'x', 'ref')]),
              OF(n + '_cref', 'int', [O(c, 'x', 'cref')])]
    if c.pol is None:
        FUNCS += [OF(n + '_take', 'void', [O(c, 'x', 'ptr', transfer_ownership=True)])]
    if c.copy:
        FUNCS += [OF(n + '_val', 'void', [O(c, 'x', 'val')])]
for c in (G, F, H, M, RG, FD, ST):
    FUNCS += [OF(c.name + '_ref', 'void', [O(c, 'x', 'ref')])]
for c in (J, J2, I):
    n = c.name
    FUNCS += [OF(n + '_val', 'void', [O(c, 'x', 'val')]), OF(n + '_cref', 'int', [O(c, 'x', 'cref'), P('int8_t', 'k')]), OF(n + '_ref', 'void', [O(c, 'x', 'ref')]),
              OF(n + '_ptr', 'void', [O(c, 'x', 'ptr')]), OF(n + '_two', 'void', [P('int8_t', 'k'), O(c, 'x', 'val'), O(c, 'y', 'cref')])]
# (the generator warns that it ignores the default of a const reference with implicit conversions)
FUNCS += [OF('J_defval', 'void', [O(J, 'x', 'val', default='J(7)')])]


def header():
    return gen_obj.header(CLASSES, FUNCS)


def source():
    return gen_obj.source(CLASSES, FUNCS)


def generate(outfile):
    gen_obj.generate('m9', CLASSES, FUNCS, outfile)


SCENARIOS = objset.scenarios(CLASSES, FUNCS, ('P20', 'P10'), lives=False)
