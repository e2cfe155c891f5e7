"""sequences: up to 4 (thorough 5) requests, each declaring or reserving, in the scope
itself or in a child scope sharing its names; the requested names are a symbolic letter out of
two followed by up to two symbolic digits (1-3), so that generated names can run into requested
ones; with and without initialiser and array; then the scope is cleared and reused.
wrapper: a real ForwardWrapperBase with up to 3 parameters of built-in types whose
symbolic names may equal each other or any name the generator uses itself."""
from pybindgen.typehandlers.base import DeclarationsScope, Parameter, ReturnValue
from pybindgen.typehandlers.codesink import MemoryCodeSink
from pybindgen.module import Module


def declared(text):
    """(declaration text) lines of an emitted declaration block"""
    return [l for l in text.split('\n') if l.strip() != '']


def sequences(c, tier):
    n = 4 if tier == 'quick' else 5
    scope = DeclarationsScope()
    child = DeclarationsScope(scope)
    used = []
    expect = {0: [], 1: []}
    asked = []
    for i in range(n):
        letter = c.choice('l%d' % i, 2).str(['a', 'b'])
        nd = c.choice('nd%d' % i, 3).pick([0, 1, 2])
        name = letter
        for k in range(nd):
            name = name + c.choice('d%d_%d' % (i, k), 3).str('123')
        kind = 0 if not c.choice('k%d' % i, 2).bool() else 1 + i % 3
        if kind == 0:
            got = scope.reserve_variable(name)
        elif kind == 1:
            got = scope.declare_variable('int', name)
            expect[0].append('int ' + got + ';')
        elif kind == 2:
            got = child.declare_variable('char *', name, 'NULL')
            expect[1].append('char *' + got + ' = NULL;')
        else:
            got = scope.declare_variable('const char *', name, '{NULL}', '[]')
            expect[0].append('const char *' + got + '[] = {NULL};')
        c.note('request %d' % i, (kind, name))
        c.note('got', got)
        free = not any(name == u for u in used)
        for u in used:
            c.require(got != u, 'every name handed out is new')
        if free:
            c.require(got == name, 'a free name is handed out unchanged')
        c.require(got.startswith(letter) and got[len(letter):].isdigit() if len(got) > len(letter) else got == letter,
                  'the name handed out is the requested one plus digits')
        used.append(got)
    for k, sc in ((0, scope), (1, child)):
        lines = declared(sc.get_code_sink().flush())
        c.require(len(lines) == len(expect[k]), 'one declaration per declared name')
        for a, b in zip(lines, expect[k]):
            c.require(a == b, 'declaration has the requested type, name and initialiser')
    first, second = (scope, child) if not c.choice('clear', 2).bool() else (child, scope)
    first.clear()
    if len(used) % 2:
        second.clear()
    got = first.declare_variable('int', 'a')
    c.require(got == 'a', 'a cleared scope starts over')
    other = second.declare_variable('int', 'a')
    third = first.reserve_variable('a')
    c.require(other != got and third != got and third != other, 'scopes of one function share names after a clear')
    c.require(declared(first.get_code_sink().flush()) == ['int ' + got + ';'],
              'a cleared scope has only the new declarations')


NAMES = ['x', 'args', 'kwargs', 'retval', 'py_retval', 'keywords', 'x2', 'retval2', 'x_len', 'tmp_x']
TYPES = ['int', 'bool', 'std::string', 'uint8_t', 'const char *', 'int8_t', 'double']


def wrapper(c, tier):
    np_ = c.choice('np', 3).pick([1, 2, 3]) if tier != 'quick' else c.choice('np', 2).pick([1, 2])
    params = []
    for i in range(np_):
        t = c.choice('t%d' % i, len(TYPES)).pick(TYPES)
        nm = c.choice('n%d' % i, len(NAMES)).pick(NAMES)
        dv = c.choice('dv%d' % i, 2).bool()
        if i and not dv and params[-1].default_value is not None:
            c.assume(False)
        params.append(Parameter.new(t, nm, default_value='DFLT' if dv else None))
    rt = c.choice('rt', 3).pick(['void', 'int', 'std::string'])
    f = Module('m').add_function('f', ReturnValue.new(rt), params)
    c.note('function', (rt, [(p.ctype, p.name, p.default_value) for p in params]))
    out = MemoryCodeSink()
    f.generate(out, 'wrap_f')
    text = out.flush()
    c.note('code', text)
    names = ['args', 'kwargs', 'self']
    started = False
    for line in text.split('\n'):
        s = line.strip()
        if s == '{':
            started = True
            continue
        if not started:
            continue
        if s == '':
            break
        d = s.split('=')[0].rstrip().rstrip(';')
        if d.endswith('[]'):
            d = d[:-2]
        nm = ''
        for ch in d[::-1]:
            if not (ch.isalnum() or ch == '_'):
                break
            nm = ch + nm
        c.require(nm not in names, 'no name is declared twice in one function')
        names.append(nm)


# HARNESSES
HARNESSES = {
    'sequences': {'all': {'split': {'k0': 2, 'nd0': 3, 'nd1': 3}}},
    'wrapper': {'quick': {'split': {'n0': 10}}, 'thorough': {'split': {'n0': 10, 't0': 7}}},
}
