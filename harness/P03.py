"""aliases: 4 symbolic type names, any subset registered, up to 3 (thorough 4)
alias declarations in any order with symbolic source and target (chains, cycles,
self-aliases, redeclarations), one queried name spelled plainly and with
qualifiers on either side, looked up twice with another lookup in between; the same
with the names being pointer types.  spelling: registered type and query are two symbolic
spellings of qualified base names with up to one pointer and a reference.
transformations: two transformations, each matching or not, over any subset of registered names."""
from pybindgen.typehandlers.base import TypeMatcher, TypeTransformation, TypeLookupError
from pybindgen.typehandlers import ctypeparser
from vh_types import ident, meaning

NAMES = ['A', 'B', 'C', 'D', 'E']


class Handler(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Handler(%s)' % (self.name,)


def reach(q, fwd, rev):
    """names connected to q by the alias declarations in force"""
    seen = [q]
    todo = [q]
    while todo:
        n = todo.pop()
        for d in (fwd, rev):
            m = d.get(n)
            if m is not None and m not in seen:
                seen.append(m)
                todo.append(m)
    return seen


def ask(tm, name):
    try:
        return tm.lookup(name)
    except TypeLookupError:
        return None


def aliases_with(c, tier, suffix, na=3, nn=4):
    tm = TypeMatcher()
    handlers = []
    for i in range(nn):
        if c.choice('reg%d' % i, 2).bool():
            h = Handler(NAMES[i])
            handlers.append(h)
            tm.register(NAMES[i] + suffix, h)
    fwd, rev = {}, {}
    for i in range(na):
        f = c.choice('from%d' % i, nn).pick(NAMES[:nn])
        t = c.choice('to%d' % i, nn).pick(NAMES[:nn])
        tm.add_type_alias(f + suffix, t + suffix)
        fwd[t] = f
        rev[f] = t
        if not c.choice('more%d' % i, 2).bool():
            break
    c.note('aliases (from/to)', (sorted(rev.items()), sorted(fwd.items())))
    # the names are interchangeable, so which of them is queried does not matter
    q = 'A'
    pre, post = 'const ', ' volatile'
    c.note('registered', handlers)
    c.note('query', pre + q + post + suffix)
    try:
        rv = ask(tm, pre + q + post + suffix)
        ask(tm, NAMES[0] + suffix)
        rv2 = ask(tm, q + suffix)
    except RecursionError:
        c.require(False, 'lookup terminates')
    conn = reach(q, fwd, rev)
    mine = [h for h in handlers if h.name == q]
    cand = [h for h in handlers if h.name in conn]
    got = rv[0] if rv is not None else None
    c.note('found', got)
    if mine:
        c.require(got is mine[0], "the type's own handler is found")
    elif cand:
        c.require(any(got is h for h in cand), 'a handler of a connected type is found')
    else:
        c.require(rv is None, 'no handler of an unconnected type is found')
    c.require(rv is None or rv[1] is None, 'no transformation is reported')
    c.require((rv2[0] if rv2 is not None else None) is got, 'the answer does not depend on spelling or earlier lookups')
    if rv is not None:
        c.require(meaning(str(rv[2].ctype)) == meaning(pre + q + post + suffix), 'the traits describe the queried type')


def aliases(c, tier):
    aliases_with(c, tier, '') if tier == 'quick' else aliases_with(c, tier, '', 4, 4)


def pointer_aliases(c, tier):
    aliases_with(c, tier, ' *', 2 if tier == 'quick' else 3)


def spelling(c, tier):
    """registered under one spelling, queried under another"""
    # two names that differ in at most the last character, which is symbolic in both
    n0 = ident(c, 'n0', 2)
    n1, n2 = n0 + ident(c, 'n1', 1), n0 + ident(c, 'n2', 1)

    def spell(v, name, rich):
        l = c.choice('l' + v, 4).str(['', 'const ', 'volatile ', 'const volatile ']) if rich else ''
        r = c.choice('r' + v, 2).str(['', ' const']) if rich else ''
        g = c.choice('g' + v, 2).str(['', '::'])
        sp = c.choice('sp' + v, 2).str(['', ' '])
        p = c.choice('p' + v, 3).pick(['', '*', '**'])
        pc = c.choice('pc' + v, 2).str(['', ' const']) if p and rich else ''
        ref = c.choice('ref' + v, 2).str(['', '&'])
        return l + g + name + r + sp + p + pc + (sp + ref if len(ref) else ''), (p, ref)
    reg, sh1 = spell('1', n1, False)
    q, sh2 = spell('2', n2, True)
    tm = TypeMatcher()
    h = Handler(reg)
    tm.register(reg, h)
    c.note('registered', reg)
    c.note('query', q)
    same = sh1[0] == sh2[0] and len(sh1[1]) == len(sh2[1]) and n1 == n2
    rv = ask(tm, q)
    if same:
        c.require(rv is not None and rv[0] is h and rv[1] is None, 'every spelling of the registered type finds its handler')
    else:
        c.require(rv is None, 'a different type does not find the handler')


class Transf(TypeTransformation):
    def __init__(self, table):
        self.table = table
        self.asked = []

    def get_untransformed_name(self, name):
        self.asked.append(name)
        for k, v in self.table:
            if name == k:
                return v
        return None


def transformations(c, tier):
    names = ['A *', 'B *', 'P< A >', 'Q< B >']
    tm = TypeMatcher()
    handlers = {}
    for i, n in enumerate(names):
        if c.choice('reg%d' % i, 2).bool():
            handlers[n] = Handler(n)
            tm.register(n, handlers[n])
    ts = []
    n_t = c.choice('nt', 3).pick([0, 1, 2])
    for i in range(n_t):
        out = c.choice('t%d' % i, 5).pick([None, 'A *', 'const A *', 'B *', 'Q<B>'])
        t = Transf([('P<A>', out)])
        ts.append((t, out))
        tm.register_transformation(t)
    al = c.choice('alias', 3).pick([None, ('B *', 'A *'), ('A *', 'P<A>')])
    if al is not None:
        tm.add_type_alias(al[0], al[1])
    c.note('registered', sorted(handlers))
    c.note('transformations', [o for _, o in ts])
    c.note('alias', al)

    def find(n):
        conn = [n]
        if al is not None:
            ab = (meaning(al[0]), meaning(al[1]))
            m = meaning(n)
            if m == ab[0] or m == ab[1]:
                conn = [n, al[0], al[1]]
        for x in conn:
            for k, h in handlers.items():
                if strip(meaning(k)) == strip(meaning(x)):
                    return h
        return None
    want = (find('P<A>'), None, 'P<A>')
    if want[0] is None:
        for t, out in ts:
            if out is not None:
                plain = out.replace('const ', '')
                if find(plain) is not None:
                    want = (find(plain), t, out)
                    break
    rv = ask(tm, 'P<A>')
    if want[0] is None:
        c.require(rv is None, 'no handler is invented')
    else:
        c.require(rv is not None and rv[0] is want[0], 'the first transformation offering a known type is used')
        c.require(rv[1] is want[1], 'the transformation used is reported')
        c.require(meaning(str(rv[2].ctype)) == meaning(want[2]), 'the traits describe the untransformed type')


def strip(m):
    return (m[0], tuple(k for k, q in m[1]))


# HARNESSES
HARNESSES = {
    'aliases': {'all': {'split': {'from0': 4, 'to0': 4}}},
    'pointer_aliases': {'all': {'split': {'from0': 4, 'to0': 4}}},
    'spelling': {'all': {'split': {'p1': 3, 'p2': 3}}},
    'transformations': {},
}
