"""valid: any text of up to 4 (thorough 6) characters over the whole alphabet of type
expressions ([A-Za-z0-9_], < > , space & * : ( ) ), starting like a type name, gives an
identifier; the same for a base name with up to 2 (thorough 3) template arguments of up to 2
such characters. distinct: two types in canonical spelling out of a plain name, a qualified
name, a two-word name, a template with 1 or 2 arguments (thorough: nested), with optional
const and up to 2 declarators (also in the arguments); identifiers are of length 1 (one symbolic character over letters and
digits; thorough 2) without underscores; pairs that differ only by a comma in place of a '::'
are the harness commas. templates: two (name, argument list) pairs of equal argument count, arguments plain,
qualified or pointer. spelling: one type in two spellings goes through the type parser and
gets one mangled name. Identifiers containing underscores (two types may then really
collide, like A__B and A::B, where C++ reserves double underscores) and argument lists of
different length with two-word arguments are outside the bounds."""
from pybindgen.utils import mangle_name, get_mangled_name
from pybindgen.typehandlers.ctypeparser import normalize_type_string, TypeTraits

from vh_types import ALPHA, REST, FIRST, ident

LETTERS = 'ABXYZgmpqzy'
ALNUM = 'ABCLTGlgtamprsx0129'
ALL = REST + '<>, &*:()'


def check_ident(c, s):
    c.require(len(s) > 0, 'the name is not empty')
    for ch in s:
        c.require(ch in REST, 'the name is a C identifier')
    c.require(s[0] in ALPHA, 'the name starts like an identifier')


def text(c, name, n):
    s = c.choice(name + '0', len(ALPHA)).str(ALPHA)
    for i in range(1, n):
        s = s + c.choice('%s%d' % (name, i), len(ALL)).str(ALL)
    return s


def valid(c, tier):
    n = c.choice('n', 4 if tier == 'quick' else 6).pick([1, 2, 3, 4, 5, 6])
    s = text(c, 'a', n)
    c.note('type', s)
    m = mangle_name(s)
    c.note('mangled', m)
    check_ident(c, m)
    c.require(mangle_name(s) == m, 'the name depends on the type only')


def valid_templates(c, tier):
    base = text(c, 'a', 2)
    k = c.choice('k', 3 if tier == 'quick' else 4).pick([0, 1, 2, 3])
    args = [text(c, 'x%d' % i, 2) for i in range(k)]
    c.note('template', (base, args))
    m = get_mangled_name(base, args)
    c.note('mangled', m)
    check_ident(c, m)
    if not k:
        c.require(m == mangle_name(base), 'without arguments the name is that of the base')


def name(c, nm, tier):
    s = c.choice(nm + 'a', len(LETTERS)).str(LETTERS)
    if tier != 'quick':
        if c.choice(nm + 'l', 2).bool():
            s = s + c.choice(nm + 'b', len(ALNUM)).str(ALNUM)
    return s


def decl(c, nm, n):
    return c.choice(nm, n).str(['', ' *', ' &', ' * *', ' * const'])


def plain(c, nm, tier):
    k = c.choice(nm + 'k', 3).pick([0, 1, 2])
    if k == 0:
        return name(c, nm + 'n', tier)
    if k == 1:
        return name(c, nm + 'n', tier) + '::' + name(c, nm + 'm', tier)
    return 'unsigned ' + c.choice(nm + 'w', 2).str(['int', 'char'])


def arg(c, nm, tier):
    q = c.choice(nm + 'q', 2).str(['', 'const '])
    return q + plain(c, nm, tier) + decl(c, nm + 'd', 2 if tier == 'quick' else 4)


def atype(c, nm, tier):
    k = c.choice(nm + 't', 4).pick([0, 1, 2, 3])
    q = c.choice(nm + 'Q', 2).str(['', 'const '])
    if k == 0:
        s = plain(c, nm + 'p', tier)
    elif k == 1:
        s = name(c, nm + 'b', tier) + '< ' + arg(c, nm + 'x', tier) + ' >'
    elif k == 2:
        s = name(c, nm + 'b', tier) + '< ' + arg(c, nm + 'x', tier) + ', ' + name(c, nm + 'y', tier) + ' >'
    else:
        s = name(c, nm + 'b', tier) + '< ' + name(c, nm + 'i', tier) + '< ' + name(c, nm + 'y', tier) + ' > >'
    return q + s + decl(c, nm + 'D', 3 if tier == 'quick' else 5)


def distinct(c, tier):
    a = atype(c, 'a', tier)
    b = atype(c, 'b', tier)
    c.assume(not (a == b))
    c.assume(not (a.replace(', ', '::') == b.replace(', ', '::')))
    c.note('types', (a, b))
    c.require(not (mangle_name(a) == mangle_name(b)), 'different types have different names')


def commas(c, tier):
    t, x, y = name(c, 't', tier), name(c, 'x', tier), name(c, 'y', tier)
    a, b = t + '< ' + x + ', ' + y + ' >', t + '< ' + x + '::' + y + ' >'
    c.note('types', (a, b))
    c.require(not (mangle_name(a) == mangle_name(b)), 'types that differ by a comma in place of :: have different names')


def targ(c, nm, tier):
    return plain(c, nm, tier) + decl(c, nm + 'd', 3)


def templates(c, tier):
    k = c.choice('k', 2 if tier == 'quick' else 3).pick([1, 2, 0])
    n1, n2 = plain(c, 'n1', tier), plain(c, 'n2', tier)
    a1 = [targ(c, 'x%d' % i, tier) if i == 0 else name(c, 'y%d' % i, tier) for i in range(k)]
    a2 = [targ(c, 'z%d' % i, tier) if i == 0 else name(c, 'w%d' % i, tier) for i in range(k)]
    same = n1 == n2
    for p, q in zip(a1, a2):
        if not (p == q):
            same = False
    c.note('templates', (n1, a1, n2, a2))
    m1, m2 = get_mangled_name(n1, a1), get_mangled_name(n2, a2)
    if same:
        c.require(m1 == m2, 'the name depends on the template only')
    else:
        c.require(not (m1 == m2), 'different templates have different names')


def spelling(c, tier):
    x, y, t = ident(c, 'x', 3), ident(c, 'y', 1), ident(c, 't', 1)
    k = c.choice('k', 5).pick([0, 1, 2, 3, 4])
    sp, sp2 = c.choice('s', 2).str(['', ' ']), c.choice('s2', 2).str(['', ' '])
    one, two = [
        (x + sp + '*', x + ' *'),
        ('const ' + x + sp + '&', x + ' const' + sp2 + '&'),
        (t + '<' + sp + x + sp2 + '>', t + '< ' + x + ' >'),
        (t + '<' + x + ',' + sp + y + '*' + sp2 + '>', t + sp + '<' + x + ' , ' + y + ' *>'),
        (t + '<' + t + '<' + x + sp + '>' + sp2 + '>', t + '< ' + t + '<' + x + '> >'),
    ][k]
    c.note('spellings', (one, two))
    c.require(mangle_name(normalize_type_string(one)) == mangle_name(normalize_type_string(two)),
              'the name does not depend on the spacing')
    c.require(mangle_name(str(TypeTraits(one).ctype)) == mangle_name(str(TypeTraits(two).ctype)),
              'the name does not depend on the spacing')


# HARNESSES
HARNESSES = {
    'valid': {'all': {'split': {'n': 4}}, 'thorough': {'split': {'n': 6}}},
    'valid_templates': {'all': {'split': {'k': 3}}, 'thorough': {'split': {'k': 4}}},
    'distinct': {'all': {'split': {'at': 4, 'bt': 4}}, 'thorough': {'seconds': 300}},
    'commas': {'all': {}},
    'templates': {'all': {'split': {'k': 2, 'n1k': 3}}},
    'spelling': {'all': {'split': {'k': 5}}},
}
