"""Type expressions: optional qualifiers left and right of the base name (const,
volatile, both orders); base names built from symbolic identifiers (every
character of every identifier ranges over [A-Za-z0-9_], lengths 1, 3 and 5; thorough
also 8; the first letter is none a type keyword starts with, two names containing a
keyword are added literally): plain, two-word, qualified, with a leading '::', templates
with up to two arguments that are themselves qualified pointer/reference types, nested
templates with '>>'; up to 2 (thorough: 4) declarators out of *, *const, * const,
*volatile and an optional &, with and without spaces.  Function types,
arrays and rvalue references are outside the bound."""
from pybindgen.typehandlers.ctypeparser import normalize_type_string

from vh_types import QUALS, RQUALS, ident, basename, simple, meaning, BASES, ARGBASES


def check_meaning(c, s):
    c.note('type', s)
    out = normalize_type_string(s)
    c.note('normalised', out)
    m_in = meaning(s)
    m_out = meaning(out)
    c.require(m_in == m_out, 'normalisation preserves the meaning of the type')
    c.require(normalize_type_string(out) == out, 'normalisation is idempotent')
    return out


def plain_types(c, tier):
    s = simple(c, 't', BASES if tier == 'quick' else BASES + ['@8'], 2 if tier == 'quick' else 4)
    check_meaning(c, s)


def template_types(c, tier):
    rich = tier != 'quick'
    n = c.choice('nargs', 2).pick([1, 2])
    sp = c.choice('sp', 2).str(['', ' '])
    args = simple(c, 'x', ARGBASES if rich else ARGBASES[1:], 1 if not rich else 2, rich)
    if n == 2:
        args = args + ',' + sp + (simple(c, 'y', ARGBASES[:2], 1, False) if rich else basename(c, 'y', '@3'))
    nest = c.choice('nest', 3 if rich else 2).pick([0, 1, 2])
    if nest == 1:
        args = 'U<' + args + '>'
    elif nest == 2:
        args = 'const U<' + args + '> *'
    tail = c.choice('tail', 3).str(['', '::X', ' const'])
    l = c.choice('l', 2).str(['', 'const '])
    p = c.choice('p', 3).str(['', '*', ' &'])
    lead = basename(c, 'lead', c.choice('lead', 3).pick(['@1', '::@3', '@1::@1'] if rich else ['@3', '::@3', '@1::@1']))
    check_meaning(c, l + lead + '<' + sp + args + sp + '>' + tail + p)


def spelling_independence(c, tier):
    """the same abstract type rendered in two ways gives one text"""
    nq = 4
    n1, n2 = ident(c, 'n1', 5), ident(c, 'n2', 3)
    cv = c.choice('cv', nq).pick([[], ['const'], ['volatile'], ['const', 'volatile']])
    base = c.choice('b', 4).pick([[n1], [n1 + '::' + n2], ['unsigned', 'int'], ['T', '<', n2, ',', n1, '>']])
    decls = []
    for i in range(1 if tier == 'quick' else 3):
        k = c.choice('d%d' % i, 4).pick([None, ['*'], ['*', 'const'], ['*', 'const', 'volatile']])
        if k is None:
            break
        decls.append(k)
    ref = c.choice('ref', 2).pick([[], ['&']])
    outs = []
    for v in ('1', '2'):
        side = c.choice('side' + v, 3).pick(['l', 'r', 'split'])
        order = c.choice('ord' + v, 2).pick([1, -1])
        cvs = list(cv)[::order]
        if side == 'l':
            toks = cvs + base
        elif side == 'r':
            toks = base + cvs
        else:
            toks = cvs[:1] + base + cvs[1:]
        if base[0] is n1 or base[0] == 'T':
            gl = c.choice('glob' + v, 2).pick(['', '::'])
            toks = [gl + t if t is base[0] else t for t in toks]
        for d in decls:
            toks = toks + d
        toks = toks + ref
        tight = c.choice('tight' + v, 2).pick([False, True])
        s = ''
        prev = ''
        for t in toks:
            word = (prev[-1:].isalnum() or prev[-1:] == '_') and (t[0].isalnum() or t[0] == ':' or t[0] == '_')
            s = s + (' ' if (word or not tight) and s else '') + t
            prev = t
        c.note('spelling' + v, s)
        outs.append(normalize_type_string(s))
        c.note('normalised' + v, outs[-1])
    c.require(outs[0] == outs[1], 'spelling variants of one type normalise to the same text')


# HARNESSES
HARNESSES = {
    'plain_types': {'quick': {'split': {'t_b': 7}}, 'thorough': {'split': {'t_b': 8, 't_l': 5}}},
    'template_types': {'all': {'split': {'lead': 3, 'tail': 3}}},
    'spelling_independence': {'all': {'split': {'cv': 4, 'b': 4}}},
}
