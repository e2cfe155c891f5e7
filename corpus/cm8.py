"""corpus module 8: containers as arguments, results and iterables"""
import gen_cont
import sc_cont
from gen import P
from gen_obj import C
from gen_cont import K, KC, CP, CF, scalar

A = C('A')
W = C('W', policy='shared')
CLASSES = [A, W]
VI = K('VI', 'std::vector<int>', 'seq', scalar('int'))
LS = K('LS', 'std::list<std::string>', 'seq', scalar('std::string'))
SI = K('SI', 'std::set<int>', 'set', scalar('int'))
MS = K('MS', 'std::multiset<int16_t>', 'set', scalar('int16_t'), multi=True)
DD = K('DD', 'std::deque<double>', 'seq', scalar('double'))
VU = K('VU', 'std::vector<uint8_t>', 'seq', scalar('uint8_t'))
VB = K('VB', 'std::vector<bool>', 'seq', scalar('bool'))
VA = K('VA', 'std::vector<A>', 'seq', A)
VW = K('VW', 'std::vector<std::shared_ptr<W> >', 'seq', W)
VV = K('VV', 'std::vector<std::vector<int> >', 'seq', VI)
MSI = K('MSI', 'std::map<std::string, int>', 'map', scalar('int'), scalar('std::string'))
MIA = K('MIA', 'std::map<int, A>', 'map', A, scalar('int'))
MIS = K('MIS', 'std::map<int, std::string>', 'map', scalar('std::string'), scalar('int'))
UII = K('UII', 'std::unordered_map<int, int>', 'map', scalar('int'), scalar('int'), ordered=False)
KS = [VI, LS, SI, MS, DD, VU, VB, VA, VW, VV, MSI, MIA, MIS, UII]
KCS = [KC('CV', VI), KC('CM', MIS, 'first', 'last', 'Iter'), KC('CA', VA, sub=True)]
FUNCS = []
for k in KS:
    n = k.name
    FUNCS += [CF(n + '_val', 'int', [CP(k, 'x')]), CF(n + '_cref', 'void', [CP(k, 'x', 'cref')]), CF(n + '_make', ('val', k), [])]
    if k in (VI, LS, VA, MSI, VV):
        FUNCS += [CF(n + '_ref', 'void', [CP(k, 'x', 'ref')]), CF(n + '_inout', 'void', [CP(k, 'x', 'ref', 'inout')]),
                  CF(n + '_out', 'std::string', [CP(k, 'x', 'ref', 'out')]), CF(n + '_ptr', 'void', [CP(k, 'x', 'ptr')]),
                  CF(n + '_take', 'void', [CP(k, 'x', 'ptr', take=True)]), CF(n + '_pout', 'void', [CP(k, 'x', 'ptr', 'out')]),
                  CF(n + '_pmix', 'void', [P('int8_t', 'a'), CP(k, 'x', 'ptr', 'out'), P('int8_t', 'b')]),
                  CF(n + '_own', ('ref', k), [])]
    if k in (VI, LS, MIA, DD):
        FUNCS += [CF(n + '_def', 'int', [CP(k, 'x', 'ref', default='dflt_%s()' % n)]),
                  CF(n + '_mix', ('val', k), [P('int8_t', 'a'), CP(k, 'x', 'ref', 'inout'), P('int8_t', 'b')])]


def header():
    return gen_cont.header(CLASSES, KS, FUNCS, KCS)


def source():
    return gen_cont.source(CLASSES, KS, FUNCS, KCS)


def generate(outfile):
    gen_cont.generate('m8', CLASSES, KS, FUNCS, KCS, outfile)


SCENARIOS = sc_cont.scenarios(KS, FUNCS, KCS)
