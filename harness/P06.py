"""parser: up to 4 (thorough 5) parameters, each with any of 7 format units (0, 1 or 2 C
arguments), optional or not, prepended or not, named or not; queried twice, cleared and
reused.  builder: up to 4 (thorough 5) values with any of 6 units, prepended or not, with and
without forced tuple.  wrapper: a real Function with up to 3 parameters of 10 built-in
types and directions, with and without default values, any of 4 return types."""
from pybindgen.typehandlers.base import ParseTupleParameters, BuildValueParameters, Parameter, ReturnValue
from pybindgen.typehandlers.codesink import MemoryCodeSink
from pybindgen.module import Module

# unit -> number of C arguments
PUNITS = [('i', 1), ('s#', 2), ('O!', 2), ('O', 1), ('d', 1), ('es#', 3), ('(ii)', 2)]
BUNITS = [('i', 1), ('s#', 2), ('N', 1), ('O', 1), ('()', 0), ('(sO)', 2)]


def parser(c, tier):
    n = c.choice('n', 5 if tier == 'quick' else 6).pick(range(5 if tier == 'quick' else 6))
    named = c.choice('named', 2).bool()
    same = c.choice('same', 2).bool()
    p = ParseTupleParameters()
    order = []
    for i in range(n):
        u, k = PUNITS[(i * 3 + n) % 7] if i else c.choice('u', 7).pick(PUNITS)
        opt = c.choice('opt%d' % i, 2).bool()
        pre = c.choice('pre%d' % i, 2).bool()
        args = ['&a%d_%d' % (i, j) for j in range(k)]
        nm = 'n%d' % (i // 2 if same else i) if named else None
        p.add_parameter(u, args, nm, prepend=pre, optional=opt)
        item = (u, args, nm, opt)
        if pre:
            order.insert(0, item)
        else:
            order.append(item)
    c.note('parameters', order)
    fmt = ''
    seen = False
    bad = False
    for u, args, nm, opt in order:
        if opt and not seen:
            fmt = fmt + '|'
            seen = True
        if seen and not opt:
            bad = True
        fmt = fmt + u
    for rep in (0, 1):
        try:
            got = p.get_parameters()
        except ValueError:
            got = None
        c.note('got', got)
        if bad:
            c.require(got is None, 'a required parameter after an optional one is refused')
        else:
            c.require(got is not None and got[0] == '"' + fmt + '"', 'one unit per parameter, in order, optional ones marked')
            c.require(got[1:] == [a for it in order for a in it[1]], 'the C arguments follow the units')
    c.require(p.get_keywords() == ([it[2] for it in order] if named and order else None), 'one keyword per unit, in order')
    if not bad:
        c.require(p.is_empty() == (n == 0), 'is_empty tells whether there are parameters')
    p.clear()
    c.require(p.get_parameters() == ['""'] and p.get_keywords() is None, 'clear leaves nothing behind')
    p.add_parameter('i', ['&z'], 'z')
    c.require(p.get_parameters() == ['"i"', '&z'] and p.get_keywords() == ['z'], 'a cleared parser starts over')


def builder(c, tier):
    n = c.choice('n', 5 if tier == 'quick' else 6).pick(range(5 if tier == 'quick' else 6))
    b = BuildValueParameters()
    order = []
    for i in range(n):
        u, k = c.choice('u%d' % i, 6).pick(BUNITS)
        pre = c.choice('pre%d' % i, 2).bool()
        args = ['v%d_%d' % (i, j) for j in range(k)]
        cl = 'cleanup%d' % i if i % 2 else None
        if cl is None:
            b.add_parameter(u, args, prepend=pre)
        else:
            b.add_parameter(u, args, prepend=pre, cancels_cleanup=cl)
        if pre:
            order.insert(0, (u, args, cl))
        else:
            order.append((u, args, cl))
    c.note('values', order)
    fmt = ''.join([u for u, _, _ in order])
    vals = [a for it in order for a in it[1]]
    c.require(b.get_parameters() == ['"' + fmt + '"'] + vals, 'one unit per value, in order')
    c.require(b.get_parameters(force_tuple_creation=True) == ['"(' + fmt + ')"'] + vals, 'forced tuple wraps the units')
    c.require(b.get_parameters() == ['"' + fmt + '"'] + vals, 'asking does not change the answer')
    c.require(b.get_cleanups() == [cl for _, _, cl in order], 'cleanup handles follow the values')
    b.clear()
    c.require(b.get_parameters() == ['""'], 'clear leaves nothing behind')


D = Parameter
TYPES = [('int', 1), ('bool', 1), ('std::string', 1), ('std::string &', 3), ('int &', 2), ('int *', 3),
         ('double', 1), ('uint8_t', 1), ('const char*', 1), ('uint16_t &', 2)]


def count_args(fmt):
    """C arguments consumed by a format string of the units the built-in types use"""
    n = 0
    i = 0
    while i < len(fmt):
        ch = fmt[i]
        if ch == '|' or ch == '#':
            if ch == '#':
                n += 1
        elif ch == '!' or ch == '&':
            n += 1
        elif ch.isalpha():
            n += 1
        i += 1
    return n


def units(fmt):
    return len([ch for ch in fmt if ch.isalpha()])


def split_args(s):
    out = []
    depth = 0
    cur = ''
    instr = False
    for ch in s:
        if ch == '"':
            instr = not instr
        if not instr and ch in '([{':
            depth += 1
        if not instr and ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0 and not instr:
            out.append(cur.strip())
            cur = ''
        else:
            cur = cur + ch
    if cur.strip():
        out.append(cur.strip())
    return out


def call_of(line, fn):
    i = line.index(fn + '(') + len(fn) + 1
    depth = 1
    j = i
    while depth:
        if line[j] == '(':
            depth += 1
        elif line[j] == ')':
            depth -= 1
        j += 1
    return split_args(line[i:j - 1])


def wrapper(c, tier):
    n = c.choice('n', 4).pick([0, 1, 2, 3])
    params = []
    ins = []
    outs = []
    for i in range(n):
        sel = TYPES if i < 2 or tier != 'quick' else TYPES[2:5]
        t, d = c.choice('t%d_%d' % (i, len(sel)), len(sel)).pick(sel)
        d = d if not (t == 'int &' and i == 1) else 1
        dv = c.choice('dv%d' % i, 2).bool()
        if dv and (d != 1 or t[-1] == '&'):
            c.assume(False)        # these handlers document no default values
        if d & 1 and not dv and any(x[2] for x in ins):
            c.assume(False)
        params.append(Parameter.new(t, 'p%d' % i, direction=d)
                      if d != 1 or '&' in t else Parameter.new(t, 'p%d' % i, default_value='DFLT' if dv else None))
        if d & 1:
            ins.append((t, 'p%d' % i, dv))
        if d & 2:
            outs.append(t)
    rt = c.choice('rt', 4).pick(['void', 'int', 'std::string', 'bool'])
    f = Module('m').add_function('f', ReturnValue.new(rt), params)
    c.note('function', (rt, [(p.ctype, p.direction, p.default_value) for p in params]))
    out = MemoryCodeSink()
    f.generate(out, 'wrap_f')
    code = out.flush()
    c.note('code', code)
    nparse = 0
    for line in code.split('\n'):
        s = line.strip()
        if 'PyArg_Parse' in s:
            nparse += 1
            a = call_of(s, 'PyArg_ParseTupleAndKeywords')
            c.require(a[0] == 'args' and a[1] == 'kwargs', 'the arguments are parsed')
            fmt = a[2][a[2].index('"') + 1:-1]
            c.require(units(fmt) == len(ins), 'one unit per input parameter')
            c.require(count_args(fmt) == len(a) - 4, 'the units consume exactly the C arguments given')
            nopt = units(fmt[fmt.index('|'):]) if '|' in fmt else 0
            c.require(nopt == len([x for x in ins if x[2]]), 'exactly the parameters with default values are optional')
        if s.startswith('const char *keywords'):
            body = s[s.index('{') + 1:s.index('}')]
            kws = [x.strip() for x in body.split(',')]
            c.require(kws == ['"%s"' % x[1] for x in ins] + ['NULL'], 'one keyword per unit, then the terminator')
        if 'py_retval = Py_BuildValue' in s:
            a = call_of(s, 'Py_BuildValue')
            fmt = a[0][a[0].index('"') + 1:-1]
            c.require(units(fmt) == len(outs) + (1 if rt != 'void' else 0), 'one unit per result')
            c.require(count_args(fmt) == len(a) - 1, 'the units consume exactly the C arguments given')
    c.require(nparse == (1 if ins else 0) or (nparse == 1), 'arguments are parsed once')


# HARNESSES
HARNESSES = {
    'parser': {'all': {'split': {'u': 7}}},
    'builder': {'all': {'split': {'u0': 6}}},
    'wrapper': {'all': {'split': {'n': 4, 'rt': 4}}},
}
