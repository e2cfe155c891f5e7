"""description of wrapped functions and the C++ code that observes their calls (pure data plus generators;
loaded by the driver, python3-vt, by the generator process and by the replay, the repository's python)"""

INTS = {'int': (32, 1), 'int32_t': (32, 1), 'unsigned int': (32, 0), 'uint32_t': (32, 0), 'uint16_t': (16, 0), 'int16_t': (16, 1),
        'unsigned short': (16, 0), 'short': (16, 1), 'uint8_t': (8, 0), 'int8_t': (8, 1), 'unsigned char': (8, 0), 'signed char': (8, 1),
        'unsigned long long': (64, 0), 'uint64_t': (64, 0), 'unsigned long': (64, 0), 'long': (64, 1), 'long long': (64, 1), 'int64_t': (64, 1),
        'size_t': (64, 0)}


ENUMS = {'Col': ('enum Col { RED = 1, BLUE = 7 };', ['RED', 'BLUE'])}


class P(object):
    def __init__(self, ctype, name, dir='in', default=None, dval=None, **kw):
        self.ctype, self.name, self.dir, self.default, self.dval, self.kw = ctype, name, dir, default, dval, kw
        base = ctype.replace('const ', '')
        self.mode = 'val'
        if base in ('char*', 'const char*', 'PyObject*'):
            pass
        elif base[-1] == '&':
            self.mode, base = 'ref', base[:-1].strip()
        elif base[-1] == '*':
            self.mode, base = 'ptr', base[:-1].strip()
        self.base = base
        self.n = kw.get('array_length')

    @property
    def sem(self):
        if self.base in INTS:
            return ('int',) + INTS[self.base]
        if self.base in ENUMS:
            return ('int', 32, 1)
        return {'bool': ('bool',), 'float': ('float',), 'double': ('double',), 'char*': ('cstr',), 'std::string': ('str',), 'char': ('char',),
                'PyObject*': ('obj',), 'void': ('void',)}[self.base]

    def is_in(self):
        return 'in' in self.dir

    def is_out(self):
        return 'out' in self.dir


class F(object):
    def __init__(self, name, ret='void', params=(), **kw):
        self.name, self.ret, self.params, self.kw = name, ret, list(params), kw
        self.tags = kw.pop('tags', None)
        self.cls, self.ctor, self.static = kw.get('cls'), kw.get('ctor'), kw.get('static')
        self.pyname = kw.get('pyname') or name        # name in the module or class
        self.cname = kw.get('cname') or self.pyname   # name in C++
        self.throw = kw.get('throw', ())              # exception classes in declared order
        self.rets = P(ret, 'r')


def logv(p, e):
    s = p.sem
    k = s[0]
    if p.base in ENUMS:
        return 'vh_i((int) %s);' % e
    if k == 'int':
        return 'vh_%s(%s);' % ('i' if s[2] else 'u', e)
    if k == 'bool':
        return 'vh_i((int) *(unsigned char *) &%s);' % e
    return {'float': 'vh_f(%s);', 'double': 'vh_d(%s);', 'cstr': 'vh_z(%s);', 'str': 'vh_ss(%s);', 'char': 'vh_i((unsigned char) %s);', 'obj': 'vh_o(%s);'}[k] % e


def newv(p, tag):
    """expression of a fresh value of the type"""
    s = p.sem
    k = s[0]
    if k == 'int':
        return '(%s) vh_int("%s", %d)' % (p.base, tag, s[1])
    return {'bool': '(bool) (vh_int("%s", 1) & 1)', 'float': 'vh_flt("%s")', 'double': 'vh_dbl("%s")', 'str': 'vh_str("%s")', 'char': '(char) vh_int("%s", 8)',
            'cstr': 'vh_cstr("%s")'}[k] % tag


def body(f):
    o = ['vh_ev("%s");' % f.name]
    if f.cls and not f.ctor and not f.static:
        o.append('vh_i(this->id);')
    for p in f.params:
        e = p.name
        if p.n:
            if p.is_in():
                o.append('for (int i = 0; i < %d; i++) { %s }' % (p.n, logv(p, e + '[i]')))
            continue
        if p.mode == 'ptr':
            e = '(*%s)' % e
        if p.is_in():
            if p.mode == 'ptr' and p.kw.get('nullable'):
                o.append('if (!%s) vh_i(0); else {' % p.name)
                o.append(logv(p, e) + '}')
            else:
                o.append(logv(p, e))
    if f.throw:
        o.append('switch (vh_choose("%s.throw", %d)) {' % (f.name, len(throws(f)) + 1))
        for i, t in enumerate(throws(f)):
            o.append('case %d: throw %s;' % (i + 1, THROWN[t][0]))
        o.append('}')
    for p in f.params:
        e = p.name
        if not p.is_out():
            continue
        if p.n:
            o.append('for (int i = 0; i < %d; i++) %s[i] = %s;' % (p.n, e, newv(p, '%s.%s' % (f.name, p.name))))
            continue
        if p.mode == 'ptr':
            e = '(*%s)' % e
        o.append('%s = %s;' % (e, newv(p, '%s.%s' % (f.name, p.name))))
    if f.ret == 'PyObject*':
        o.append('if (f_obj_keep) { PyObject *k = f_obj_keep; return k; } Py_INCREF(Py_None); return Py_None;' if False else
                 'static PyObject *last; last = %s; %s return last;' % (f.params[0].name, 'vh_incref(last);' if f.kw.get('caller_owns', True) else ''))
    elif f.ret == 'std::string&':
        o.append('delete g_str; g_str = new std::string(vh_str("%s.r")); return *g_str;' % f.name)
    elif f.ret != 'void':
        o.append('return %s;' % newv(f.rets, f.name + '.r'))
    return '\n  '.join(o)


def sig(f):
    def one(p):
        if p.n:
            return '%s %s[]' % (p.base, p.name)
        t = p.ctype
        return '%s %s' % (t, p.name)
    return '%s %s(%s)' % (f.ret, f.cname, ', '.join(one(p) for p in f.params))


# thrown objects: C++ expression, classes it matches, message
THROWN = {'err': ('Err()', ('Err',), None), 'sub': ('SubErr()', ('SubErr', 'Err'), None), 'msg1': ('MsgErr("ab")', ('MsgErr',), 'ab'),
          'msg2': ('MsgErr("")', ('MsgErr',), ''), 'std': ('StdErr(1)', ('StdErr',), 'one'), 'std2': ('StdErr(2)', ('StdErr',), 'two')}
EXC_SRC = '''struct Err { virtual ~Err() {} }; struct SubErr : Err { int x; SubErr() : x(1) {} };
struct MsgErr { const char *m; MsgErr(const char *s) : m(s) {} const char *what() const { return m; } };
struct StdErr { int k; StdErr(int i) : k(i) {} const char *text() const { return k == 1 ? "one" : "two"; } };
'''
# C++ class -> (name in the module or builtin, has a message)
EXC_PY = {'Err': ('Err', False), 'SubErr': ('SubErr', False), 'MsgErr': ('MsgErr', True), 'StdErr': ('ValueError', True)}


def throws(f):
    return sorted(t for t in THROWN if any(c in f.throw for c in THROWN[t][1]))


def expected_exc(f, k):
    t = THROWN[throws(f)[k - 1]]
    c = [c for c in f.throw if c in t[1]][0]
    return EXC_PY[c], t[2]


def add_exceptions(m):
    e = m.add_exception('Err')
    return {'Err': e, 'SubErr': m.add_exception('SubErr', parent=e), 'MsgErr': m.add_exception('MsgErr', message_rvalue='%(EXC)s.what()'),
            'StdErr': m.add_exception('StdErr', custom_name='ValueError', is_standard_error=True, message_rvalue='%(EXC)s.text()')}


DIRS = {'in': 'DIRECTION_IN', 'out': 'DIRECTION_OUT', 'inout': 'DIRECTION_INOUT'}
RT = """static char g_buf[4]; static std::string *g_str;
static char *vh_cstr(const char *n) {
  int k = vh_choose(n, 4);
  if (k == 3) return NULL;
  for (int i = 0; i < k; i++) g_buf[i] = (char) vh_int(n, 8);
  g_buf[k] = 0;
  return g_buf;
}
"""


def pparams(f):
    from pybindgen import Parameter, param
    ps = []
    for p in f.params:
        kw = {}
        if p.mode != 'val' or p.dir != 'in':
            kw['direction'] = getattr(Parameter, DIRS[p.dir])
        if p.default is not None:
            kw['default_value'] = p.default
        for k in ('array_length', 'transfer_ownership'):
            if k in p.kw:
                kw[k] = p.kw[k]
        ps.append(param(p.ctype, p.name, **kw))
    return ps


def pret(f):
    from pybindgen import retval
    if f.ret == 'void':
        return None
    return retval(f.ret, **({'caller_owns_return': f.kw['caller_owns']} if f.ret == 'PyObject*' else {}))
