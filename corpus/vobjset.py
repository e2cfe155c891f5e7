"""classes of the corpus modules with virtual methods that pass objects"""
import gen_vobj
from gen import P
from gen_obj import C, O, R
from gen_vobj import VOF, Host

A = C('A')
Q = C('Q', policy='refm')
W = C('W', policy='shared')
K = C('K')         # returned by reference: one copy stays for good
S = C('S', sub=True)
OBJS = [A, Q, W, K, S]
H = Host('H', [VOF('a0', 'void', [O(A, 'x', 'val')]), VOF('a1', 'int', [O(A, 'x', 'cref')]), VOF('a2', 'void', [O(A, 'x', 'ref', 'inout'), P('int', 'k')]),
               VOF('a3', 'void', [O(A, 'x', 'ptr')]), VOF('a4', 'void', [O(A, 'x', 'ptr', transfer_ownership=True)], call='thread'),
               VOF('a5', 'int', [O(A, 'x', 'cptr')]), VOF('a6', 'bool', [O(A, 'x', 'ptr', transfer_ownership=True)]),
               VOF('a7', 'int', [P('bool&', 'o', 'out'), O(A, 'x', 'ref', 'inout')]),
               VOF('c0', 'void', [O(Q, 'x', 'ptr')], call='thread'), VOF('c1', 'int', [O(Q, 'x', 'ptr', transfer_ownership=True)]), VOF('c2', 'void', [O(Q, 'x', 'cptr')]),
               VOF('s0', 'void', [O(W, 'x', 'ptr')]), VOF('s1', 'int', [O(W, 'x', 'ptr')], call='thread'),
               VOF('r0', R(A, 'val')), VOF('r1', R(K, 'cref')), VOF('r2', R(A, 'new'), call='thread'), VOF('r3', R(Q, 'new')), VOF('r4', R(W, 'new')),
               VOF('r5', R(A, 'val'), [P('int&', 'o', 'out')]), VOF('r6', R(A, 'val'), [O(A, 'x', 'cref')]), VOF('r7', R(Q, 'new'), [O(Q, 'x', 'ptr')]),
               VOF('r8', R(W, 'new'), [O(W, 'x', 'ptr')]), VOF('n0', 'void', [O(A, 'x', 'ptr', null=True)]), VOF('n1', 'int', [O(Q, 'x', 'ptr', null=True)]), VOF('n2', 'void', [O(W, 'x', 'ptr', null=True)]),
               VOF('b0', 'int', [O(S, 'x', 'ptr')]), VOF('b1', 'void', [O(S, 'x', 'val'), O(S, 'y', 'ref', 'inout')]), VOF('b2', R(S, 'new'), [O(S, 'x', 'ptr', 'inout')]),
               VOF('h0', 'void', [O(C('H'), 'x', 'ptr')]), VOF('h1', 'void', [O(C('H'), 'x', 'ref', 'inout')])], store=False, copy=True)
HP = Host('HP', [VOF('p0', R(A, 'val'), pure=True), VOF('p1', 'void', [O(A, 'x', 'cref')], pure=True)], store=False)
F = [Host('E', [VOF('f', 'int', [P('int', 'x')])]), Host('G', [VOF('f', 'int', [P('int', 'x')])], policy='refm')]
HS = Host('HS', [VOF('t0', 'void', [O(A, 'x', 'ptr', transfer_ownership=True)], shown=True), VOF('t1', 'int', [O(A, 'x', 'ptr', transfer_ownership=True)], shown=True),
                 VOF('t2', 'void', [O(Q, 'x', 'ptr', transfer_ownership=True)], shown=True), VOF('t3', 'int', [O(Q, 'x', 'ptr', transfer_ownership=True)], shown=True),
                 VOF('t4', 'int', [O(Q, 'x', 'ptr')], shown=True), VOF('t5', 'void', [O(W, 'x', 'ptr')], shown=True), VOF('t6', 'void', [O(A, 'x', 'ptr')], shown=True),
                 VOF('t7', 'int', [O(S, 'x', 'ptr', transfer_ownership=True)], shown=True), VOF('t8', 'void', [O(A, 'x', 'ptr', 'inout')], shown=True),
                 VOF('t9', 'int', [O(S, 'x', 'ptr', 'inout')], shown=True)], store=False)
HOSTS = [H, HP, HS] + F
