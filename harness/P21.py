"""functions: up to 3 functions under up to 3 Python names, each in the root module or a namespace,
each fine, of an unknown type, or failing while it is generated.  members: a class with 2
(thorough 3) members out of 13 kinds (methods, overloads, static, const, virtual, pure virtual
and protected methods, sequence and call methods, constructors, instance, read-only and static
attributes), each fine, of an unknown type, or failing while generated, with or without
subclassing, with or without a base class, in the root module or a namespace.  sections: 3
entities out of 6 kinds, each in the main section or one of two others, in the root module or a
namespace, one of them possibly failing.  names: 2 (thorough 3) classes, functions, enums, inner
classes and template instances of 2 names in 4 namespaces.  In the first three: no error handler, one that skips and
one that refuses.  The emitted text is read by an independent scanner (vh_scan)."""
import re
import sys
import warnings
warnings.simplefilter('ignore')
from pybindgen import settings, utils
from pybindgen.module import Module, MultiSectionFactory
from pybindgen.typehandlers import base
from pybindgen.typehandlers.base import Parameter, ReturnValue, CodeGenerationError, NotSupportedError, TypeLookupError, \
    TypeConfigurationError
from pybindgen.typehandlers.codesink import MemoryCodeSink
from pybindgen.utils import param, retval
import vh_scan


class BadParam(Parameter):
    "a parameter that cannot be converted; known only when it is generated"
    DIRECTIONS = [Parameter.DIRECTION_IN]
    CTYPES = ['bad_t']

    def convert_python_to_c(self, wrapper):
        raise CodeGenerationError('bad_t cannot be converted')

    def convert_c_to_python(self, wrapper):
        raise CodeGenerationError('bad_t cannot be converted')


class BadReturn(ReturnValue):
    CTYPES = ['bad_t']

    def get_c_error_return(self):
        return 'return 0;'

    def convert_python_to_c(self, wrapper):
        raise NotSupportedError('bad_t cannot be converted')

    def convert_c_to_python(self, wrapper):
        raise NotSupportedError('bad_t cannot be converted')


def copied(x):
    return x.copy() if isinstance(x, (dict, list, set)) else x


# the registries as they are before anything is declared
SAVED = [(m, dict([(k, copied(v)) for k, v in vars(m).items()]))
         for m in (base.param_type_matcher, base.return_type_matcher)]


class Handler(settings.ErrorHandler):
    def __init__(self, answer):
        self.answer = answer
        self.seen = []

    def handle_error(self, wrapper, ex, tb):
        self.seen.append((type(ex), str(ex)))
        return self.answer


def start(c, handlers=True):
    for m, saved in SAVED:
        for k in saved:
            setattr(m, k, copied(saved[k]))
    mode = c.choice('handler', 3).pick(['none', 'skip', 'refuse']) if handlers else 'none'
    h = None
    if mode == 'skip':
        h = Handler(True)
    elif mode == 'refuse':
        h = Handler(False)
    settings.error_handler = h
    settings.name_prefix = ''
    settings.allow_subclassing = False
    settings.unblock_threads = False
    return h


ERRORS = (CodeGenerationError, NotSupportedError, TypeLookupError, TypeConfigurationError)
OK, UNKNOWN, FAILS = 'ok', 'unknown type', 'fails to generate'
QUAL = [OK, UNKNOWN, FAILS]


def params(q, k):
    """parameter list of an entity of quality q with k distinguishing parameters"""
    ps = [param('int', 'k%d' % i) for i in range(k)]
    if q == UNKNOWN:
        ps.append(param('Unheard_of', 'u'))
    elif q == FAILS:
        ps.append(param('bad_t', 'u'))
    return ps


def finish(c, mod, h, anybad, header=None, files=None):
    """generate; returns the scan, or None when generation rightly stopped"""
    err = None
    try:
        if files is None:
            out = MemoryCodeSink()
            mod.generate(out)
        else:
            mod.generate(files)
    except ERRORS as ex:
        err = ex
    c.note('error', err)
    if h is None or not h.answer:
        if anybad:
            c.require(err is not None, 'without an agreeing error handler, generation stops with the error')
            return None
    c.require(err is None, 'nothing that cannot be skipped: generation completes')
    if h is not None:
        c.require(bool(h.seen) == bool(anybad), 'the error handler hears about failing entities, and only about them')
    if files is None:
        return vh_scan.scan({'main': out.flush()})
    return vh_scan.scan(files.texts(), 'header')


def attempt(c, h, q, fn, what):
    """declare one entity; False if that stopped with the (right) error"""
    try:
        r = fn()
    except ERRORS as ex:
        c.require(q == UNKNOWN and not (h is not None and h.answer), lambda: 'declaring %s raises %r' % (what, ex))
        return False
    c.require(not (q == UNKNOWN and not (h is not None and h.answer)),
              lambda: 'declaring %s of an unknown type is refused' % what)
    return True


def clean(c, s):
    c.require(not s.problems, lambda: 'the generated text is consistent: %s' % '; '.join(s.problems))


def module_table(c, s, path, want, what='functions'):
    """the function table of the module with that prefix has exactly these rows; returns name -> symbol"""
    rows = s.tables.get(path + '_functions')
    c.require(rows is not None, 'the module has a function table')
    got = sorted([r[0] for r in rows])
    c.require(got == sorted(want), lambda: 'function table of %s: %s, declared and not skipped: %s' % (path, got, sorted(want)))
    md = s.moddefs.get(path + '_moduledef')
    c.require(md is not None and md[0] == path.replace('_', '.') and md[1] == path + '_functions',
              'the module definition names the function table')
    return dict([(r[0], r[1]) for r in rows])


def functions(c, tier):
    h = start(c)
    mod = Module('m')
    ns = mod.add_cpp_namespace('N')
    n = c.choice('n', 3).pick([1, 2, 3])
    decl = []
    for i in range(n):
        name = 'fgh'[c.choice('name%d' % i, i + 1).pick(range(i + 1))]
        in_ns = c.choice('place%d' % i, 2).bool()
        q = c.choice('q%d' % i, 3).pick(QUAL)
        cxx = 'fun%d' % i
        c.note('function', (cxx, name, 'N' if in_ns else '', q))
        where = ns if in_ns else mod
        if not attempt(c, h, q, lambda: where.add_function(cxx, retval('int'), params(q, i), custom_name=name), cxx):
            return
        decl.append((cxx, name, in_ns, q))
    s = finish(c, mod, h, [d for d in decl if d[3] != OK])
    if s is None:
        return
    clean(c, s)
    for in_ns, path in ((False, 'm'), (True, 'm_N')):
        good = [d for d in decl if d[2] == in_ns and d[3] == OK]
        names = []
        for d in good:
            if d[1] not in names:
                names.append(d[1])
        table = module_table(c, s, path, names)
        for cxx, name, _, _ in good:
            who = s.callers(cxx)
            c.require(len(who) == 1, lambda: '%s is wrapped %d times' % (cxx, len(who)))
            c.require(s.calls(s.reach(table[name]), cxx) == 1, lambda: '%s.%s does not lead to %s' % (path, name, cxx))
        for nm in names:
            for cxx, name, w, q in decl:
                if q != OK or w != in_ns or name != nm:
                    c.require(s.calls(s.reach(table[nm]), cxx) == 0, lambda: '%s.%s leads to %s' % (path, nm, cxx))
    md, ev = s.inits['PyInit_m']
    c.require([e for e in ev if e[0] == 'object'] == [('object', 'N', 'initm_N')], 'the submodule is registered once')


KINDS = ['method', 'method', 'static', 'const', 'virtual', 'pure virtual', 'protected', '__len__', '__getitem__', '__call__',
         'constructor', 'attribute', 'static attribute', 'readonly', 'copy', 'overload static']


def add_member(cls, kind, i, q):
    """declare member number i; returns a thunk"""
    cxx = 'mem%d' % i
    ps = params(q, i)
    if kind == 'method':
        return lambda: cls.add_method(cxx, retval('int'), ps, custom_name='a')
    if kind == 'static':
        return lambda: cls.add_method(cxx, retval('int'), ps, custom_name='s', is_static=True)
    if kind == 'overload static':
        return lambda: cls.add_method(cxx, retval('int'), ps, custom_name='a', is_static=True)
    if kind == 'const':
        return lambda: cls.add_method(cxx, retval('int'), ps, custom_name='k', is_const=True)
    if kind == 'virtual':
        return lambda: cls.add_method(cxx, retval('int'), ps, is_virtual=True)
    if kind == 'pure virtual':
        return lambda: cls.add_method(cxx, retval('int'), ps, is_virtual=True, is_pure_virtual=True)
    if kind == 'protected':
        return lambda: cls.add_method(cxx, retval('int'), ps, visibility='protected')
    if kind == '__len__':
        return lambda: cls.add_method(cxx, retval('int'), params(q, 0), custom_name='__len__')
    if kind == '__getitem__':
        return lambda: cls.add_method(cxx, retval('int'), [param('int', 'idx')] + params(q, 0), custom_name='__getitem__')
    if kind == '__call__':
        return lambda: cls.add_method(cxx, retval('int'), ps, custom_name='__call__')
    if kind == 'constructor':
        return lambda: cls.add_constructor(ps)
    if kind == 'copy':
        return lambda: cls.add_copy_constructor()
    t = retval({OK: 'int', UNKNOWN: 'Unheard_of', FAILS: 'bad_t'}[q])
    if kind == 'attribute':
        return lambda: cls.add_instance_attribute(cxx, t)
    if kind == 'readonly':
        return lambda: cls.add_instance_attribute(cxx, t, is_const=True)
    return lambda: cls.add_static_attribute(cxx, t)


PYNAME = {'method': 'a', 'static': 's', 'const': 'k', 'overload static': 'a'}
SLOTTED = {'__len__': 'length', '__getitem__': 'item', '__call__': 'call'}
SEQ = ['sq_length', 'sq_concat', 'sq_repeat', 'sq_item', 'sq_slice', 'sq_ass_item', 'sq_ass_slice', 'sq_contains',
       'sq_inplace_concat', 'sq_inplace_repeat']


def members(c, tier):
    kinds = KINDS[1:]
    h = start(c)
    mod = Module('m')
    in_ns = c.choice('ns', 2).bool()
    where = mod.add_cpp_namespace('N') if in_ns else mod
    sub = c.choice('subclassing', 2).bool()
    based = c.choice('based', 2).bool()
    if tier == 'quick':
        c.assume(based == in_ns)
    b = None
    if based:
        b = where.add_class('Base', allow_subclassing=sub)
        b.add_constructor([])
        b.add_method('bm', retval('int'), [])
    cls = where.add_class('C', allow_subclassing=sub, parent=b) if based else where.add_class('C', allow_subclassing=sub)
    n = 2 if tier == 'quick' else 3
    decl = []
    for i in range(n):
        kind = c.choice('kind%d' % i, len(kinds)).pick(kinds)
        q = c.choice('q%d' % i, 3).pick(QUAL)
        if kind == 'copy':
            c.assume(q == OK)
        if kind == 'protected':
            c.assume(sub)
        c.note('member', ('mem%d' % i, kind, q))
        if not attempt(c, h, q, add_member(cls, kind, i, q), kind):
            return
        if kind == 'overload static' or kind == 'method':
            first = [d for d in decl if d[2] == OK and (d[1] == 'overload static' or d[1] == 'method')]
            if q == OK and first and first[0][1] != kind:
                q = 'conflicts'         # static and non-static methods cannot share a wrapper
        decl.append(('mem%d' % i, kind, q))
    if [d for d in decl if d[1] == 'pure virtual']:
        # whether an abstract class has a constructor or copy to generate is not at issue here
        c.assume(not [d for d in decl if d[1] == 'copy' or d[1] == 'constructor' and d[2] == FAILS])
    others = where.add_class('After', allow_subclassing=False)
    others.add_constructor([])
    others.add_method('am', retval('int'), [])
    s = finish(c, mod, h, [d for d in decl if d[2] != OK])
    if s is None:
        return
    clean(c, s)
    check_class(c, s, decl, sub, based, in_ns)


def check_class(c, s, decl, sub, based, in_ns):
    scope = 'N::' if in_ns else ''
    st = 'PyNC' if in_ns else 'PyC'
    init = 'initm_N' if in_ns else 'PyInit_m'
    md, ev = s.inits[init]
    objs = [e[1] for e in ev if e[0] == 'object']
    want = (['Base'] if based else []) + ['C', 'After']
    c.require(objs == want, lambda: 'classes registered: %s, declared: %s' % (objs, want))
    for nm, t in [e[1:] for e in ev if e[0] == 'object']:
        c.require(len([e for e in ev if e == ('ready', t)]) == 1 and t in s.types, lambda: 'type of %s is readied once' % nm)
        c.require(s.types[t]['name'] == ('m.N.' if in_ns else 'm.') + nm, lambda: 'type of %s' % nm)
    ty = s.types[[e for e in ev if e[0] == 'object' and e[1] == 'C'][0][2]]
    after = s.types[[e for e in ev if e[0] == 'object' and e[1] == 'After'][0][2]]
    c.require([r[0] for r in s.tables[after['methods']]] == ['am'], 'the class declared after it has its method')
    c.require(after['init'] is not None, 'the class declared after it has its constructor')
    rows = s.tables[ty['methods']]
    table = dict([(r[0], r[1]) for r in rows])
    good = [d for d in decl if d[2] == OK]
    want = []
    helper = sub and True
    for cxx, kind, q in good:
        if kind in ('virtual', 'pure virtual'):
            want.append(cxx)
        elif kind == 'protected':
            pass
        elif kind in PYNAME and PYNAME[kind] not in want:
            want.append(PYNAME[kind])
        elif kind == 'copy':
            pass
    got = [r[0] for r in rows if r[0] != '__copy__' and not [d for d in good if d[1] == 'protected' and d[0] == r[0]]]
    c.require(sorted(got) == sorted(want), lambda: 'method table: %s, declared and not skipped: %s' % (got, want))
    c.require(len([r for r in rows if r[0] == '__copy__']) <= 1, '__copy__ is registered at most once')
    prot = [d for d in good if d[1] == 'protected']
    for cxx, kind, q in decl:
        inst = s.getsets.get(ty['getset'], []) if ty['getset'] else []
        if kind in ('virtual', 'pure virtual', 'method', 'static', 'const', 'overload static'):
            name = cxx if kind in ('virtual', 'pure virtual') else PYNAME[kind]
            if q == OK:
                who = [w for w in s.callers(cxx) if '::' not in w]
                c.require(len(who) == 1, lambda: '%s is wrapped %d times' % (cxx, len(who)))
                c.require(s.calls(s.reach(table[name]), cxx) >= 1, lambda: 'C.%s does not lead to %s' % (name, cxx))
                c.require(s.calls(s.reach(table[name]), cxx) == 1 or kind == 'virtual' or kind == 'pure virtual',
                          lambda: 'C.%s leads to %s twice' % (name, cxx))
            elif name in table:
                c.require(s.calls(s.reach(table[name]), cxx) == 0, lambda: 'C.%s leads to the skipped %s' % (name, cxx))
        elif kind in SLOTTED:
            if kind == '__call__':
                target = ty['call']
            else:
                arr = s.arrays.get(ty['sequence']) if ty['sequence'] else None
                e = arr[1 + SEQ.index('sq_' + SLOTTED[kind])] if arr else 'NULL'
                target = None if e.endswith('NULL') else vh_scan.IDENT.findall(e)[-1]
            ok = [d for d in decl if d[1] == kind and d[2] == OK]
            c.require((target is not None) == bool(ok), lambda: 'slot for %s: %s' % (kind, target))
            if target is not None:
                c.require(s.calls(s.reach(target), cxx) == (1 if q == OK else 0), lambda: 'slot for %s and %s' % (kind, cxx))
        elif kind in ('attribute', 'readonly'):
            mine = [r for r in inst if r[0] == cxx]
            c.require(len(mine) == (1 if q == OK else 0), lambda: 'attribute %s is registered %d times' % (cxx, len(mine)))
            if q == OK:
                c.require(cxx in s.bodies[mine[0][1]] and (kind == 'attribute') == (mine[0][2] != 'NULL'),
                          'attribute %s has its getter and setter' % cxx)
        elif kind == 'static attribute':
            mine = [(k, r) for k, rs in s.getsets.items() for r in rs if r[0] == cxx]
            c.require(len(mine) == (1 if q == OK else 0), lambda: 'attribute %s is registered %d times' % (cxx, len(mine)))
            if q == OK:
                metas = [t for t, d in s.types.items() if d['getset'] == mine[0][0]]
                c.require(len(metas) == 1 and len([e for e in ev if e == ('ready', metas[0])]) == 1,
                          'the metatype is readied once')
    ctors = [d for d in decl if d[1] == 'constructor' or d[1] == 'copy']
    okc = [d for d in ctors if d[2] == OK]
    c.require(ty['init'] is not None, 'tp_init is not inherited')
    body = s.reach(ty['init'])
    pure = [d for d in decl if d[1] == 'pure virtual']
    for cxx, kind, q in ctors:
        if kind != 'constructor' or pure:
            continue
        i = int(cxx[3:])
        args = ', '.join(['k%d' % j for j in range(i)])
        cnt = body.count('new %sC(%s)' % (scope, args))
        c.require(cnt == (1 if q == OK else 0), lambda: 'the constructor with %d parameters appears %d times' % (i, cnt))
    if not okc:
        c.require('PyErr_SetString' in body and 'new ' not in body, 'a class without usable constructors cannot be constructed')


class Files(MultiSectionFactory):
    def __init__(self):
        self.sinks = {}

    def sink(self, name):
        if name not in self.sinks:
            self.sinks[name] = MemoryCodeSink()
        return self.sinks[name]

    def get_section_code_sink(self, section_name):
        return self.sink('main' if section_name == '__main__' else 'section ' + section_name)

    def get_main_code_sink(self):
        return self.sink('main')

    def get_common_header_code_sink(self):
        return self.sink('header')

    def get_common_header_include(self):
        return '"m.h"'

    def texts(self):
        return dict([(k, v.flush()) for k, v in self.sinks.items()])


EKINDS = ['function', 'class', 'subclassable', 'enum', 'container', 'exception', 'converter']
SECTIONS = [None, 'a', 'b']


def sections(c, tier):
    h = start(c)
    mod = Module('m')
    ns = mod.add_cpp_namespace('N')
    multi = c.choice('multi', 2).bool()
    n = 2 if tier == 'quick' else 3
    decl = []
    for i in range(n):
        kind = c.choice('kind%d' % i, len(EKINDS)).pick(EKINDS)
        sec = c.choice('section%d' % i, 3).pick(SECTIONS)
        in_ns = c.choice('place%d' % i, 2).bool()
        q = c.choice('q%d' % i, 2).pick([OK, FAILS])
        if kind in ('enum', 'exception'):
            c.assume(q == OK)
        c.note('entity', ('%s%d' % (kind, i), kind, sec, 'N' if in_ns else '', q))
        where = ns if in_ns else mod
        if sec is not None:
            mod.begin_section(sec)
        nm = 'ent%d' % i
        prev = [d for d in decl if d[1] == 'class' or d[1] == 'subclassable']
        full = None
        if kind == 'function':
            ps = params(q, 0)
            if prev:
                ps.append(param(prev[0][5], 'x'))
            where.add_function(nm, retval('int'), ps)
        elif kind == 'class' or kind == 'subclassable':
            k = where.add_class(nm, allow_subclassing=kind == 'subclassable')
            k.add_constructor([])
            k.add_copy_constructor()
            k.add_method('mem%d' % i, retval('int'), params(q, 0), is_virtual=kind == 'subclassable')
            k.add_instance_attribute('att%d' % i, retval('int'))
            full = k.full_name
        elif kind == 'enum':
            where.add_enum(nm, ['VAL%d' % i, 'WAL%d' % i])
        elif kind == 'container':
            et = 'int' if not prev else prev[0][5]
            where.add_container('std::vector<%s>' % et if i == 0 else 'std::list<%s>' % et if i == 1 else 'std::set<%s>' % et,
                                retval(et), 'vector' if i == 0 else 'list' if i == 1 else 'set', custom_name='Ent%d' % i)
            if q == FAILS:
                c.assume(False)
        elif kind == 'exception':
            where.add_exception(nm)
        else:
            # a function using containers: shared converters are emitted once
            if q == FAILS:
                c.assume(False)
            if not [d for d in decl if d[1] == 'converter']:
                mod.add_container('std::deque<int>', retval('int'), 'deque', custom_name='Shared')
            where.add_function(nm, retval('std::deque<int>'), [param('std::deque<int>', 'x')])
        if sec is not None:
            mod.end_section(sec)
        decl.append((nm, kind, sec, in_ns, q, full, i))
    files = Files() if multi else None
    s = finish(c, mod, h, [d for d in decl if d[4] != OK], files=files)
    if s is None:
        return
    clean(c, s)
    for in_ns, path, init in ((False, 'm', 'PyInit_m'), (True, 'm_N', 'initm_N')):
        mine = [d for d in decl if d[3] == in_ns]
        fns = [d for d in mine if d[1] == 'function' or d[1] == 'converter']
        table = module_table(c, s, path, [d[0] for d in fns if d[4] == OK])
        for d in fns:
            if d[4] == OK:
                who = s.callers(d[0])
                c.require(who == [table[d[0]]], lambda: '%s is wrapped by %s' % (d[0], who))
                home(c, s, multi, table[d[0]], d[2])
        md, ev = s.inits[init]
        c.require(md == path + '_moduledef', 'the init function creates its module')
        want = []
        for d in mine:
            if d[1] == 'class' or d[1] == 'subclassable' or d[1] == 'exception':
                want.append(d[0])
            elif d[1] == 'container':
                want.append('Ent%d' % d[6])
        if not in_ns:
            want.append('N')
            if [d for d in decl if d[1] == 'converter']:
                want.append('Shared')
        objs = [e[1] for e in ev if e[0] == 'object']
        if not [o for o in objs if o.endswith('Iter')]:
            pass
        c.require(sorted([o for o in objs if not o.endswith('Iter')]) == sorted(want), lambda: 'registered in %s: %s, declared: %s' % (path, objs, want))
        ints = [e[1:] for e in ev if e[0] == 'int']
        wint = []
        for d in mine:
            if d[1] == 'enum':
                for v in ('VAL', 'WAL'):
                    v = '%s%d' % (v, d[6])
                    wint.append((v, ('N::' if in_ns else '') + v))
        c.require(sorted(ints) == sorted(wint), lambda: 'constants of %s: %s, declared: %s' % (path, ints, wint))
        objd = dict([(e[1], e[2]) for e in ev if e[0] == 'object'])
        for d in mine:
            if d[1] == 'class' or d[1] == 'subclassable':
                t = objd[d[0]]
                c.require(ev.count(('ready', t)) == 1, lambda: 'type of %s is readied once' % d[0])
                home(c, s, multi, t, d[2])
                rows = s.tables[s.types[t]['methods']]
                c.require([r[0] for r in rows if r[0] != '__copy__'] == (['mem%d' % d[6]] if d[4] == OK else []),
                          lambda: 'method table of %s: %s' % (d[0], rows))
                home(c, s, multi, s.types[t]['methods'], d[2])
                for r in rows:
                    home(c, s, multi, r[1], d[2])
                gs = s.getsets[s.types[t]['getset']]
                c.require([r[0] for r in gs] == ['att%d' % d[6]], 'attributes of %s' % d[0])
            elif d[1] == 'container':
                t = objd['Ent%d' % d[6]]
                c.require(ev.count(('ready', t)) == 1 and t in s.types, lambda: 'type of %s is readied once' % d[0])
                home(c, s, multi, t, d[2])
            elif d[1] == 'exception':
                c.require([e for e in ev if e[0] == 'newexc' and e[1] == objd[d[0]]] != [], 'the exception is created')
                home(c, s, multi, objd[d[0]], d[2])


def home(c, s, multi, sym, sec):
    want = 'main' if sec is None or not multi else 'section ' + sec
    got = s.home.get(sym)
    c.require(got == want, lambda: '%s is defined in %s, it belongs to %s' % (sym, got, want))


def taker(s, i):
    return [r[1] for r in s.tables['m_functions'] if r[0] == 'take%d' % i][0]


def names(c, tier):
    """entities of the same or similar names in different scopes stay apart"""
    h = start(c, False)
    settings.name_prefix = c.choice('prefix', 2).pick(['', 'pre'])
    mod = Module('m')
    n1 = mod.add_cpp_namespace('N')
    n2 = n1.add_cpp_namespace('X')
    n3 = mod.add_cpp_namespace('M')
    c.require(mod.add_cpp_namespace('N') is n1, 'a namespace is added once')
    mods = [(mod, 'm', 'PyInit_m', ''), (n1, 'm_N', 'initm_N', 'N::'), (n2, 'm_N_X', 'initm_N_X', 'N::X::'), (n3, 'm_M', 'initm_M', 'M::')]
    decl = []
    classes = []
    for i in range(2 if tier == 'quick' else 3):
        kind = c.choice('kind%d' % i, 5).pick(['class', 'function', 'inner', 'template', 'enum'])
        name = c.choice('name%d' % i, 2).pick(['X', 'Y'])
        w = c.choice('where%d' % i, 4).pick([0, 1, 2, 3])
        c.assume(not (w == 1 and name == 'X'))    # would clash with the namespace
        where = mods[w][0]
        key = (w, name, None)
        if kind == 'inner':
            c.assume(len(classes) > 0)
            outer = classes[0]
            w = outer[1]
            where = mods[w][0]
            key = (w, name, outer[2])
        c.assume(not [d for d in decl if d[0] == key])
        cu = c.choice('custom%d' % i, 2).bool()
        custom = 'Cus%d' % i if cu else None
        c.note('entity', (kind, name, mods[w][1], custom))
        if kind == 'function':
            where.add_function(name, retval('int'), [], custom_name=custom)
            py = custom or name
        elif kind == 'enum':
            where.add_enum(name, ['%s_v%d' % (name, i)])
            py = '%s_v%d' % (name, i)
        else:
            if kind == 'template':
                k = where.add_class(name, template_parameters=['int'], custom_name=custom)
                py = None
            elif kind == 'inner':
                k = where.add_class(name, outer_class=outer[0], custom_name=custom)
                py = custom or name
            else:
                k = where.add_class(name, custom_name=custom)
                py = custom or name
            k.add_constructor([])
            k.add_method('met%d' % i, retval('int'), [])
            if kind == 'template':
                py = k.get_python_name()
            if kind == 'class':
                classes.append((k, w, i))
        full = None
        if kind == 'enum':
            full = mods[w][3] + name
        elif kind != 'function':
            full = k.full_name
        decl.append((key, kind, py, w, i, full))
    for d in decl:
        if d[5] is not None:
            mod.add_function('take%d' % d[4], None, [param(d[5] if d[1] == 'enum' else d[5] + ' &', 'a')])
    # two entities of one module with one Python name: not meaningful
    for i in range(len(decl)):
        for j in range(i):
            if decl[i][0][2] == decl[j][0][2] and decl[i][3] == decl[j][3]:
                c.assume(decl[i][2] != decl[j][2])
    s = finish(c, mod, h, False)
    if s is None:
        return
    clean(c, s)
    for k in range(4):
        _, path, init, cxx = mods[k]
        mine = [d for d in decl if d[3] == k]
        takes = ['take%d' % d[4] for d in decl if d[5] is not None and k == 0]
        table = module_table(c, s, path, [d[2] for d in mine if d[1] == 'function'] + takes)
        for d in mine:
            if d[1] == 'function':
                c.require(s.calls(s.reach(table[d[2]]), cxx + d[0][1]) == 1, lambda: '%s leads to its function' % d[2])
        md, ev = s.inits[init]
        want = [d[2] for d in mine if d[1] == 'class' or d[1] == 'template']
        if k == 0:
            want = want + ['N', 'M']
        if k == 1:
            want = want + ['X']
        objs = [e[1] for e in ev if e[0] == 'object']
        c.require(sorted(objs) == sorted(want), lambda: 'registered in %s: %s, declared: %s' % (path, objs, want))
        subs = dict([(e[1], e[2]) for e in ev if e[0] == 'object' and e[2].startswith('init')])
        wsub = {0: {'N': 'initm_N', 'M': 'initm_M'}, 1: {'X': 'initm_N_X'}}.get(k, {})
        c.require(subs == wsub, lambda: 'submodules of %s: %s' % (path, subs))
        ints = [e[1:] for e in ev if e[0] == 'int']
        wint = [(d[2], cxx + d[2]) for d in mine if d[1] == 'enum']
        c.require(sorted(ints) == sorted(wint), lambda: 'constants of %s: %s' % (path, ints))
        for d in mine:
            if d[1] == 'enum':
                take = s.reach(taker(s, d[4]))
                c.require(re.search(r'(?<![\w:])' + d[5] + r' \w+;', take) is not None, lambda: 'a function taking %s: %s' % (d[5], take))
            if d[1] == 'function' or d[1] == 'enum':
                continue
            if d[1] == 'inner':
                outer = [e[2] for e in ev if e[0] == 'object' and e[1] == [x for x in decl if x[4] == d[0][2]][0][2]]
                hits = [e[3] for e in ev if e[0] == 'member' and e[1:3] == (outer[0], d[2])]
            else:
                hits = [e[2] for e in ev if e[0] == 'object' and e[1] == d[2]]
            c.require(len(hits) == 1 and hits[0] in s.types and ev.count(('ready', hits[0])) == 1, lambda: 'type of %s' % (d,))
            take = s.reach(taker(s, d[4]))
            c.require(re.search(r'\b' + hits[0] + r'\b', take) is not None, lambda: 'a function taking %s checks for %s: %s' % (d[5], hits[0], take))
            rows = s.tables[s.types[hits[0]]['methods']]
            c.require([r[0] for r in rows] == ['met%d' % d[4]] and s.calls(s.reach(rows[0][1]), 'met%d' % d[4]) == 1,
                      lambda: 'methods of %s: %s' % (d, rows))


# HARNESSES
HARNESSES = {
    'functions': {'all': {'split': {'place0': 2, 'q0': 3}}},
    'members': {'all': {'split': {'kind0': 15}, 'seconds': 300}},
    'names': {'all': {'split': {'kind0': 5, 'prefix': 2}}},
    'sections': {'all': {'split': {'kind0': 7, 'multi': 2}, 'seconds': 300}},
}
