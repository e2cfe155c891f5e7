"""Type expressions as for P01 (symbolic identifiers of 1-5 characters, qualifiers on both
sides of the base name, a template argument that is itself a qualified pointer or
reference), up to 2 (thorough: 3) pointer levels, optional reference; const/volatile on
every level."""
from pybindgen.typehandlers.ctypeparser import TypeTraits
from vh_types import QUALS, RQUALS, ident, basename, simple, meaning, BASES, ARGBASES


def strip(levels, which=('const', 'volatile')):
    return tuple((k, tuple(x for x in q if x not in which)) for k, q in levels)


def no_outer(levels, what):
    k, q = levels[-1]
    return levels[:-1] + ((k, tuple(x for x in q if x != what)),)


def with_const(levels, i):
    k, q = levels[i]
    out = list(levels)
    out[i] = (k, tuple(sorted(set(q) | set(['const']))))
    return tuple(out)


def derived(c, tt, base, levels, when):
    noconst = no_outer(levels, 'const')
    c.require(meaning(str(tt.ctype_no_const)) == (base, noconst), when + 'ctype_no_const drops exactly the outermost const')
    noref = noconst[:-1] if noconst[-1][0] == '&' else noconst
    c.require(meaning(str(tt.ctype_no_const_no_ref)) == (base, noref),
              when + 'ctype_no_const_no_ref drops exactly the outermost const and the reference')


def classify(c, s):
    c.note('type', s)
    tt = TypeTraits(s)
    base, levels = meaning(s)
    c.require(meaning(str(tt.ctype)) == (base, levels), 'ctype denotes the given type')
    kind, quals = levels[-1]
    c.require(tt.type_is_const == ('const' in quals), 'type_is_const is exact')
    c.require(tt.type_is_pointer == (kind == '*'), 'type_is_pointer is exact')
    c.require(tt.type_is_reference == (kind == '&'), 'type_is_reference is exact')
    c.require(tt.target_is_const == (len(levels) > 1 and 'const' in levels[-2][1]), 'target_is_const is exact')
    c.require(meaning(str(tt.ctype_no_modifiers)) == (base, strip(levels)),
              'ctype_no_modifiers drops exactly the top-level-list qualifiers')
    derived(c, tt, base, levels, '')
    if len(levels) > 1:
        c.require(tt.target is not None and meaning(str(tt.target)) == (base, strip(levels[:-1])),
                  'target is the pointed-to or referred-to type without qualifiers')
    else:
        c.require(tt.target is None, 'a plain type has no target')
    tt2 = TypeTraits(s)
    if kind != '&':
        tt2.make_const()
        c.require(tt2.type_is_const and meaning(str(tt2.ctype)) == (base, with_const(levels, -1)),
                  'make_const adds const at the outermost level only')
        c.require(meaning(str(tt2.ctype_no_const)) == (base, no_outer(levels, 'const')),
                  'make_const leaves the derived types alone')
    if len(levels) > 1:
        tt3 = TypeTraits(s)
        tt3.make_target_const()
        lv = with_const(levels, -2)
        c.require(tt3.target_is_const and meaning(str(tt3.ctype)) == (base, lv),
                  'make_target_const adds const at the target level only')
        c.require(tt3.type_is_const == ('const' in quals) and tt3.type_is_pointer == (kind == '*')
                  and tt3.type_is_reference == (kind == '&'), 'make_target_const keeps the classification')
        derived(c, tt3, base, lv, 'after make_target_const: ')


def plain(c, tier):
    classify(c, simple(c, 't', BASES, 2 if tier == 'quick' else 3))


def templates(c, tier):
    rich = tier != 'quick'
    args = simple(c, 'x', ARGBASES if rich else ARGBASES[1:], 1, rich)
    l = c.choice('l', 2).str(['', 'const '])
    r = c.choice('r', 3).str(['', ' const', ' volatile'])
    p = c.choice('p', 5).str(['', '*', ' &', '*const', '*const*'])
    lead = basename(c, 'lead', c.choice('lead', 3).pick(['@3', '::@3', '@1::@1']))
    classify(c, l + lead + '<' + args + '>' + r + p)


# HARNESSES
HARNESSES = {
    'plain': {'quick': {'split': {'t_b': 7}}, 'thorough': {'split': {'t_b': 7, 't_l': 5}}},
    'templates': {'all': {'split': {'p': 5, 'r': 3}}},
}
