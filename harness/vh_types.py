"""symbolic type expressions and an independent reading of their meaning"""
QUALS = ['', 'const ', 'volatile ', 'const volatile ', 'volatile const ']
RQUALS = ['', ' const', ' volatile', ' const volatile', ' volatile const']
BASES = ['@5', 'unsigned int', '@1::@3', '::@3', '::@1::@5', 'const_x', 'x_volatile']
ARGBASES = ['@3', '::@5', '@1::@3']
ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz'
REST = ALPHA + '0123456789'
# no first letter of a C++ type keyword, so that no identifier is one
FIRST = ''.join(ch for ch in ALPHA if ch not in 'bcdefilsuvw')


def ident(c, name, n):
    s = c.choice(name + '0', len(FIRST)).str(FIRST)
    for i in range(1, n):
        s = s + c.choice('%s%d' % (name, i), len(REST)).str(REST)
    return s


def basename(c, name, spec):
    """replace each @n of the chosen base name by a symbolic identifier"""
    out = ''
    i = 0
    while i < len(spec):
        if spec[i] == '@':
            out = out + ident(c, '%s_i%d_' % (name, i), int(spec[i + 1]))
            i += 2
        else:
            out = out + spec[i]
            i += 1
    return out


def lex(s):
    toks = []
    cur = ''
    for ch in s:
        if ch.isspace():
            if len(cur):
                toks.append(cur)
            cur = ''
        elif ch in '<>,*&()[]':
            if len(cur):
                toks.append(cur)
            cur = ''
            toks.append(ch)
        else:
            cur = cur + ch
    if len(cur):
        toks.append(cur)
    return toks


def parse(toks, top=True):
    """meaning of a type: (base parts, [qualifiers per level])"""
    base = []
    levels = [['', set()]]
    while len(toks):
        t = toks.pop(0)
        if t == 'const' or t == 'volatile':
            levels[-1][1].add('const' if t == 'const' else 'volatile')
        elif t == '*' or t == '&':
            levels.append(['*' if t == '*' else '&', set()])
        elif t == '<':
            args = []
            while True:
                m, end = parse(toks, False)
                args.append(m)
                if end == '>':
                    break
                if not (end == ','):
                    return ('bad', 'unterminated'), None
            base.append(tuple(args))
        elif t == '>' or t == ',':
            if top:
                return ('bad', 'stray delimiter'), None
            return (tuple(base), tuple((l, tuple(sorted(q))) for l, q in levels)), t
        else:
            if len(levels) > 1:
                return ('bad', 'name after declarator'), None
            if t.startswith('::') and not len(base):
                t = t[2:]
            base.append(t)
    return (tuple(base), tuple((l, tuple(sorted(q))) for l, q in levels)), None


def meaning(s):
    return parse(lex(s))[0]


def declarators(c, name, n, glue):
    s = ''
    for i in range(n):
        d = c.choice('%s_d%d' % (name, i), 5).str(['', '*', '*const', '* const', '*volatile'])
        if not len(d):
            break
        s = s + glue + d
    r = c.choice('%s_ref' % name, 2).str(['', '&'])
    if len(r):
        s = s + glue + r
    return s


def simple(c, name, bases, ndecl, rich=True):
    q = QUALS if rich else QUALS[:2]
    rq = RQUALS if rich else RQUALS[:2]
    l = c.choice(name + '_l', len(q)).str(q)
    b = basename(c, name, c.choice(name + '_b', len(bases)).pick(bases))
    r = c.choice(name + '_r', len(rq)).str(rq)
    glue = c.choice(name + '_g', 2).str(['', ' ']) if rich else ''
    return l + b + r + declarators(c, name, ndecl, glue)
