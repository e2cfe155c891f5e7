"""place: a header of 6 (thorough 7) lines, each of 10 kinds (annotation comments of both styles, indented or
not, with trailing blanks, plain comments, code, blank, annotation-like trailing comments), two declarations on
any lines; the annotations of each, and exactly the unused ones reported.
content: one annotation comment of up to 2 items (thorough 3) of 9 forms, well-formed and malformed, with
symbolic identifier and value characters and symbolic spacing.
options: any subset (up to 3) of the documented parameter and return annotations and an unknown one, in any
order, each with any of its values in any case.
headers: a header with a class (two constructors, two methods, an attribute) and three functions, any two of them
annotated in any of 2 to 12 ways, scanned by the real ModuleParser (declarations in memory); the options of every
wrapper, what the pre-scan hook gets, and the generated script against the scanned module (same C++ code)."""
import pygccxml_path
from pybindgen import castxmlparser as X
from pybindgen.castxmlparser import AnnotationsScanner, GccXmlTypeRegistry, ModuleParser
from pybindgen.typehandlers.base import Parameter
from pybindgen.module import Module
from pybindgen.cppclass import ReferenceCountingMethodsPolicy, ReferenceCountingFunctionsPolicy, FreeFunctionPolicy
from pybindgen.cppmethod import CppMethod, CppFunctionAsConstructor
from pybindgen.typehandlers import base
from pybindgen.typehandlers.codesink import MemoryCodeSink
from pygccxml import declarations as D
from pygccxml.declarations import cpptypes as T, location


class File(object):
    def __init__(self, lines):
        self.lines = lines

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def readlines(self):
        return list(self.lines)


class Warnings(object):
    """records what castxmlparser warns about"""
    def __init__(self):
        self.seen = []

    def warn_explicit(self, text, cat, filename, lineno, *rest):
        self.seen.append((text, filename, lineno))

    def warn(self, text, cat=None, *rest):
        self.seen.append((text, None, None))


def install(lines):
    w = Warnings()
    X.warnings = w
    opened = []

    def fake_open(name, mode=None):
        opened.append(name)
        return File(lines)
    X.open = fake_open
    return w


def function(line, name='f', artificial=False, fname='/x/h.h'):
    f = D.free_function_t(name=name, return_type=T.int_t(), arguments=[], mangled='_Z1fv')
    f.location = location.location_t(fname, line)
    f.is_artificial = artificial
    return f


def same(a, b):
    """equality of dictionaries whose keys and values may be symbolic"""
    if len(a) != len(b):
        return False
    for k in list(b):
        if k not in a:
            return False
        x, y = a[k], b[k]
        if isinstance(y, dict):
            if not isinstance(x, dict) or not same(x, y):
                return False
        elif x is None or y is None:
            if x is not y:
                return False
        elif x != y:
            return False
    return True


# kind -> (text with %s for the annotation, is it an annotation line)
LINES = [('// -#- %s -#-\n', True), ('    /* -#- %s -#- */\n', True), ('int other;\n', False),
         ('\t// -#- %s -#-  \n', True), ('/* -#- %s -#- */\n', True), ('\n', False),
         ('// a note\n', False), ('int other; // -#- x%s -#-\n', False), ('// %s -#-\n', False),
         ('//   -#-  %s  -#-\n', True)]


def place(c, tier):
    n = 6 if tier == 'quick' else 7
    d1 = c.choice('d1', n).pick(range(1, n + 1))
    d2 = c.choice('d2', n).pick(range(1, n + 1))
    c.assume(d1 <= d2)
    art = c.choice('art', 2).bool()
    lines, attached = [], []
    for i in range(1, n + 1):
        if i == d1 or i == d2:
            lines.append('int f();\n')
            attached.append(False)
            continue
        # which of the comment styles stands here only matters to the line itself
        text, isann = c.choice('l%d' % i, 10 if i >= d1 - 2 and i <= d2 else 4).pick(LINES)
        item = 'k%d=v%d' % (i, i) if i % 2 else '@p%d(k=w%d)' % (i, i)
        lines.append(text % item if '%s' in text else text)
        attached.append(isann)
    w = install(lines)
    c.note('lines', lines)
    c.note('declarations', (d1, d2, art))
    sc = AnnotationsScanner()
    used = []
    for which, line in ((0, d1), (1, d2)):
        got = sc.get_annotations(function(line, artificial=(which == 0 and art)))
        c.note('got%d' % which, got)
        wg, wp = {}, {}
        if not (which == 0 and art):
            i = line - 1
            while i >= 1 and attached[i - 1]:
                if i % 2:
                    wg['k%d' % i] = 'v%d' % i
                else:
                    wp['p%d' % i] = {'k': 'w%d' % i}
                used.append(i)
                i = i - 1
        c.require(same(got[0], wg) and same(got[1], wp), 'a declaration has exactly the annotations directly above it')
    c.require(not w.seen, 'well-formed annotations cause no warning')
    # other places: no file, artificial
    c.require(sc.get_annotations(function(d1, fname='')) == ({}, {}), 'a declaration without a file has no annotations')
    sc.warn_unused_annotations()
    c.note('warnings', w.seen)
    if 1 in [1 for l in (d1, d2) if not (l == d1 and art)] or sc.files:
        want = [i for i in range(1, n + 1) if attached[i - 1] and i not in used]
        c.require([x[2] for x in w.seen] == want, 'exactly the unused annotations are reported')
        c.require([x for x in w.seen if x[1] != '/x/h.h'] == [], 'they are reported in their file')


IDENT = ['a', 'Z', '_', '7']
VALUE = ['x', '9', ':', '>', '=', '|', '-', '*', '"', '(', '.']
PVALUE = ['x', '9', ':', ')', '=', '|', '(', '*', '"', '@', '.']
SPACE = ['', ' ', '  ', '\t']


def content(c, tier):
    n = 1 + c.choice('n', 2 if tier == 'quick' else 3).pick(range(2 if tier == 'quick' else 3))
    full = c.choice('full', n).pick(range(n)) if n > 1 else 0
    wg, wp = {}, {}
    text = ''
    bad = 0
    style = c.choice('style', 2).pick([0, 1])

    def sp(name, symbolic):
        return c.choice(name, 4).str(SPACE) if symbolic else ' '

    def word(name, first, chars, k, symbolic):
        s = first
        for j in range(k):
            s = s + (c.choice('%s%d' % (name, j), len(chars)).str(chars) if symbolic else chars[j % 2])
        return s
    for i in range(n):
        sym = i == full             # one item is symbolic down to its characters
        form = c.choice('form%d' % i, 9).pick(['flag', 'value', 'param', 'param2', 'paramflag', 'empty', 'noname',
                                               'unclosed', 'bare'])
        if i:
            text = text + (c.choice('s%d' % i, 4).str(SPACE) if sym else '') + ';' + (sp('t%d' % i, sym) if sym else ' ')
        key = word('key%d' % i, 'ABC'[i], IDENT, 2, sym)
        if form == 'flag':
            text = text + key
            wg[key] = None
        elif form == 'value':
            v = word('val%d' % i, '', VALUE, 3, sym)
            text = text + key + '=' + v
            wg[key] = v
        elif form == 'param':
            v = word('val%d' % i, '', PVALUE, 2, sym)
            text = text + '@' + key + '(' + (sp('i%d' % i, sym) if sym else '') + 'k=' + v + (sp('j%d' % i, sym) if sym else '') + ')'
            wp[key] = {'k': v}
        elif form == 'param2':
            v = word('val%d' % i, '', PVALUE, 1, sym)
            text = text + '@' + key + '(k=' + v + (sp('i%d' % i, sym) if sym else '') + ',' + (sp('j%d' % i, sym) if sym else ' ') + \
                key + '=' + v + v + ')'
            wp[key] = {'k': v, key: v + v}
        elif form == 'paramflag':
            text = text + '@' + key + '(k,' + (sp('i%d' % i, sym) if sym else '') + key + '=1)'
            wp[key] = {'k': None, key: '1'}
        elif form == 'empty':
            bad = bad + 1
        elif form == 'noname':
            text = text + '=' + key
            bad = bad + 1
        elif form == 'unclosed':
            text = text + '@' + key + '(k=1'
            bad = bad + 1
        else:
            text = text + '@' + key
            bad = bad + 1
    other = '// -#- W=w -#-\n'
    mine = ('  // -#- ' + text + ' -#-\n') if style == 0 else ('/* -#- ' + text + ' -#- */\n')
    lines = ['int a;\n', mine, 'int f();\n', other, 'int g();\n']
    c.note('line', mine)
    w = install(lines)
    sc = AnnotationsScanner()
    got = sc.get_annotations(function(3))
    c.note('got', got)
    c.note('warnings', w.seen)
    c.require(same(got[0], wg) and same(got[1], wp), 'every key, value and parameter name as written')
    c.require(len(w.seen) == bad, 'one warning for each malformed annotation')
    c.require(sc.get_annotations(function(5)) == ({'W': 'w'}, {}), 'the next declaration has its own annotations')
    c.require(len(w.seen) == bad, 'no warning for the next declaration')
    sc.warn_unused_annotations()
    c.require(len(w.seen) == bad, 'no annotation is unused')


BOOLS = [('true', True), ('True', True), ('on', True), ('ON', True), ('false', False), ('FALSE', False), ('off', False),
         ('Off', False), (1, True), (0, False)]
INTS = [('0', 0), ('1', 1), ('-1', -1), ('12', 12), (2, 2)]
DIRS = [('in', Parameter.DIRECTION_IN), ('OUT', Parameter.DIRECTION_OUT), ('inout', Parameter.DIRECTION_INOUT),
        ('In', Parameter.DIRECTION_IN), ('out', Parameter.DIRECTION_OUT), ('InOut', Parameter.DIRECTION_INOUT)]
RETURN = [('caller_owns_return', BOOLS), ('free_after_copy', BOOLS), ('reference_existing_object', BOOLS),
          ('return_internal_reference', BOOLS), ('custodian', INTS), ('unheard_of', None)]
PARAM = [('transfer_ownership', BOOLS), ('direction', DIRS), ('custodian', INTS), ('array_length', INTS),
         ('default_value', [('7', '7'), ('NULL', 'NULL')]), ('null_ok', BOOLS), ('unheard_of', None)]
TYPES = [(T.int_t, 'int'), (lambda: T.pointer_t(T.char_t()), 'char *'),
         (lambda: T.reference_t(T.const_t(T.int_t())), 'int const &'),
         (lambda: T.pointer_t(T.const_t(T.char_t())), 'char const *')]


def options(c, tier):
    what = c.choice('what', 2).pick(['return', 'parameter'])
    table = RETURN if what == 'return' else PARAM
    n = c.choice('n', 4).pick([0, 1, 2, 3])
    ann, want, unknown = {}, {}, 0
    for i in range(n):
        name, values = c.choice('name%d' % i, len(table)).pick(table)
        c.assume(name not in ann)
        if values is None:
            ann[name] = 'x'
            unknown = unknown + 1
        else:
            # the values of one annotation are symbolic, those of the others fixed
            if i == 0:
                raw, val = c.choice('value_' + what[0] + name, len(values)).pick(values)
            else:
                raw, val = values[i % len(values)]
            ann[name] = raw
            want[name] = val
    c.note('annotations', ann)
    reg = GccXmlTypeRegistry(Module('m'))
    mk, tname = c.choice('type', len(TYPES)).pick(TYPES)
    w = install([])
    before = dict(ann)
    if what == 'return':
        args, kw = reg.lookup_return(mk(), ann)
    else:
        args, kw = reg.lookup_parameter(mk(), 'p', ann)
        c.require(args[1] == 'p', 'the parameter keeps its name')
    c.note('got', (args, kw))
    c.note('warnings', w.seen)
    c.require(args[0] == tname, 'the type is the declared one')
    c.require(kw == want, 'each annotation becomes the documented option')
    c.require(len(w.seen) == unknown, 'exactly the unknown annotations are reported')
    c.require(ann == before, 'the annotations are not changed')
    if what == 'parameter':
        dflt = reg.lookup_parameter(mk(), 'p', {}, 'K')
        c.require(dflt[1] == {'default_value': 'K'}, "the header's default value is the default")


# ---- whole headers: declarations in memory, scanned by the real ModuleParser

SLOTS = [
    ('Foo', 'class', ['', 'custom_name=Bar', 'allow_subclassing=true', 'allow_subclassing=false', 'is_singleton=true', 'automatic_type_narrowing=on',
                      'pygen_comment=c', 'strange=1', 'ignore', 'incref_method=Ref; decref_method=Unref', 'decref_method=Unref;peekref_method=Count; incref_method=Ref',
                      'free_function=fff; custom_name=Baz', 'decref_function=dec; incref_function=inc']),
    ('ctor', 'method', ['', '@p(transfer_ownership=true)', '@p(transfer_ownership=false)', '@p(null_ok=true)', '@q(transfer_ownership=true)']),
    ('get', 'method', ['', '@return(caller_owns_return=true)', '@return(caller_owns_return=false)', '@return(reference_existing_object=true)',
                       '@return(return_internal_reference=true)', 'name=fetch; @return(caller_owns_return=off)', 'ignore',
                       '@return(custodian=0,  reference_existing_object=true)']),
    ('take', 'method', ['', '@p(transfer_ownership=true); @n(direction=in)', '@p(transfer_ownership=false) ;@n(direction=out)',
                        '@p(transfer_ownership=true, null_ok=true); @n(direction=inout)', '@p(transfer_ownership=false)',
                        'unblock_threads=true; @p(transfer_ownership=false); @n(direction=in)', '@n(direction=out);@p( transfer_ownership=true )',
                        '@n(direction=inout)', 'ignore', '@p(custodian=0,transfer_ownership=false);@n(direction=in)',
                        'name=steal;@p(transfer_ownership=on);@n(direction=in)']),
    ('val', 'attribute', ['', 'ignore']),
    ('make', 'function', ['', '@return(caller_owns_return=true); @n(direction=in)', '@return(caller_owns_return=false); @n(direction=out)',
                          'name=build; @return(caller_owns_return=true); @n(direction=in)', 'ignore', '@return(caller_owns_return=true)',
                          '@n(direction=inout)', '@n(direction=inout); @return(reference_existing_object=true)']),
    ('put', 'function', ['', '@p(transfer_ownership=true)', '@p(transfer_ownership=false)', '@p(transfer_ownership=false, null_ok=yes)',
                         'as_method=put_m; of_class=Foo; @p(transfer_ownership=false)', '@q(transfer_ownership=true)',
                         'unblock_threads=off; @p(transfer_ownership=true)', 'is_constructor_of=Foo; @p(transfer_ownership=false)']),
]
SLOTS[6][2][3] = '@p(transfer_ownership=false, null_ok=off)'


def header(choice):
    """the lines of the header and its declarations, each with its annotation (an index per slot)"""
    lines = ['#include <a>\n']
    g = D.namespace_t('::')

    def put(owner, d, ann, access=None):
        if ann:
            lines.append('  // -#- ' + ann + ' -#-\n')
        lines.append('decl;\n')
        d.location = location.location_t('/x/h.h', len(lines))
        if access is None:
            owner.adopt_declaration(d)
        else:
            owner.adopt_declaration(d, access)
        d.attributes = ''
        if isinstance(d, D.member_function_t):
            d.virtuality = D.VIRTUALITY_TYPES.NOT_VIRTUAL
        lines.append('\n')
        return d
    foo = put(g, D.class_t('Foo'), choice['Foo'])
    ptr = lambda: T.pointer_t(T.declarated_t(foo))
    put(foo, D.constructor_t(name='Foo', arguments=[D.argument_t('o', T.reference_t(T.const_t(T.declarated_t(foo))))]), '', 'public')
    arg = D.argument_t
    put(foo, D.constructor_t(name='Foo', arguments=[arg('p', ptr()), arg('k', T.int_t())]), choice['ctor'], 'public')
    put(foo, D.member_function_t(name='get', return_type=ptr(), arguments=[], mangled='_ZN3Foo3getEv'), choice['get'], 'public')
    put(foo, D.member_function_t(name='take', return_type=T.void_t(), arguments=[arg('p', ptr()), arg('n', T.pointer_t(T.int_t()))],
                                 mangled='_ZN3Foo4takeEPS_Pi'), choice['take'], 'public')
    put(foo, D.variable_t(name='val', decl_type=T.int_t(), type_qualifiers=T.type_qualifiers_t()), choice['val'], 'public')
    put(foo, D.destructor_t(name='~Foo', arguments=[]), '', 'public')
    put(g, D.free_function_t(name='make', return_type=ptr(), arguments=[arg('n', T.pointer_t(T.int_t()))], mangled='_Z4makePi'), choice['make'])
    put(g, D.free_function_t(name='put', return_type=ptr() if 'is_constructor_of' in choice['put'] else T.void_t(), arguments=[arg('p', ptr())], mangled='_Z3putP3Foo'), choice['put'])
    put(g, D.free_function_t(name='zero', return_type=T.int_t(), arguments=[], mangled='_Z4zerov'), '')
    return lines, g


def parse_header(c, lines, g, seen):
    w = install(lines)
    X.annotations_scanner = AnnotationsScanner()
    X.parser.parse = lambda *a: [g]
    X.D_global = D.get_global_namespace
    D.get_global_namespace = lambda d: g
    X.declarations.get_global_namespace = lambda d: g
    X.find_xml_generator = lambda: ('x', 'castxml')
    X.parser.xml_generator_configuration_t = lambda **k: None
    sink = MemoryCodeSink()
    mp = ModuleParser('m')

    def hook(parser, decl, ga, pa):
        key = ('ctor' if len(decl.arguments) == 2 else 'copy') if isinstance(decl, D.constructor_t) else decl.name
        seen.append((key, dict(ga), dict((k, dict(v)) for k, v in pa.items())))
    mp.add_pre_scan_hook(hook)
    mod = mp.parse(['/x/h.h'], pygen_sink=sink)
    return mod, sink.flush(), w


def options_of(ann):
    """the annotation as dictionaries, by its own small parser"""
    g, p = {}, {}
    for item in ann.split(';'):
        item = item.strip()
        if item.startswith('@'):
            name, rest = item[1:].split('(')
            p[name] = dict(tuple(x.strip().split('=')) for x in rest[:-1].split(','))
        elif item:
            k = item.split('=')
            g[k[0]] = k[1] if len(k) > 1 else None
    return g, p


def truth(v):
    return v.lower() in ('true', 'on')


def check_params(c, where, params, pann, sigs):
    """the parameter handlers have the annotated options"""
    for prm, name in zip(params, sigs):
        a = pann.get(name, {})
        if 'transfer_ownership' in a:
            c.require(prm.transfer_ownership == truth(a['transfer_ownership']), where + ': transfer_ownership as annotated')
        if 'null_ok' in a:
            c.require(prm.null_ok == truth(a['null_ok']), where + ': null_ok as annotated')
        if 'direction' in a:
            d = {'in': Parameter.DIRECTION_IN, 'out': Parameter.DIRECTION_OUT, 'inout': Parameter.DIRECTION_INOUT}[a['direction']]
            c.require(prm.direction == d, where + ': direction as annotated')


def check_return(c, where, rv, a):
    if 'caller_owns_return' in a:
        c.require(rv.caller_owns_return == truth(a['caller_owns_return']), where + ': caller_owns_return as annotated')
    if 'reference_existing_object' in a:
        c.require(rv.reference_existing_object == truth(a['reference_existing_object']), where + ': reference_existing_object as annotated')
    if 'return_internal_reference' in a:
        c.require(rv.return_internal_reference == truth(a['return_internal_reference']), where + ': return_internal_reference as annotated')


def wrapped(ann, what, p):
    """whether the declaration gets a wrapper"""
    g, pa = options_of(ann)
    if 'ignore' in g:
        return False
    if p and 'transfer_ownership' not in pa.get('p', {}):
        return False                      # a class pointer needs to know who owns it
    if what in ('make', 'take') and 'direction' not in pa.get('n', {}):
        return False                      # so does a pointer to int
    if what in ('make', 'get'):
        return True if 'return' in pa else None     # None: accepted, and left out when the code is generated
    return True


CLEAN = [(m, dict(m._types), set(m._short_names)) for m in (base.param_type_matcher, base.return_type_matcher)]


def clean():
    """each module is described in a process of its own"""
    for m, t, n in CLEAN:
        m._types, m._short_names = dict(t), set(n)


def headers(c, tier):
    clean()
    choice = dict((s[0], s[2][0]) for s in SLOTS)
    # any two declarations are annotated in any way, the others in the simplest way that makes them wrapped
    choice.update(ctor='@p(transfer_ownership=false)', take='@p(transfer_ownership=false); @n(direction=in)', get='@return(reference_existing_object=true)',
                  make='@return(caller_owns_return=true); @n(direction=in)', put='@p(transfer_ownership=false)')
    i = c.choice('slot1', 7).pick(range(7))
    j = c.choice('slot2', 7).pick(range(7))
    c.assume(i < j)
    for k in (i, j):
        name, kind, anns = SLOTS[k]
        choice[name] = c.choice('ann' + name, len(anns)).pick(anns)
    lines, g = header(choice)
    c.note('annotations', choice)
    if choice['Foo'] == 'ignore':
        c.assume('as_method' not in choice['put'] and 'is_constructor_of' not in choice['put'])
    seen = []
    mod, script, w = parse_header(c, lines, g, seen)
    c.note('hook', seen)
    for name, ga, pa in seen:
        c.require((ga, pa) == options_of(choice.get(name, '')), 'the hook of %s gets its annotations' % name)
    for name in choice:
        if choice['Foo'] != 'ignore' or name not in ('ctor', 'get', 'take', 'val'):
            c.require(name in [k[0] for k in seen], 'the hook runs for ' + name)
    c.note('script', script)
    c.note('warnings', w.seen)
    classes = [k for k in mod.classes]
    if choice['Foo'] == 'ignore':
        c.require(classes == [], 'an ignored class is not declared')
        c.require('zero' in mod.functions, 'another definition is still wrapped')
        return
    c.require([k.name for k in classes] == ['Foo'], 'the class is declared')
    foo = classes[0]
    ga, pa = options_of(choice['Foo'])
    c.require(foo.custom_name == ga.get('custom_name') if 'custom_name' in ga else True, 'custom_name as annotated')
    if 'allow_subclassing' in ga:
        c.require(foo.allow_subclassing == truth(ga['allow_subclassing']), 'allow_subclassing as annotated')
    mp = foo.memory_policy
    if 'incref_method' in ga:
        c.require(isinstance(mp, ReferenceCountingMethodsPolicy), 'reference counting methods as annotated')
        for k in ('incref_method', 'decref_method', 'peekref_method'):
            c.require(getattr(mp, k) == ga.get(k), k + ' as annotated')
    elif 'incref_function' in ga:
        c.require(isinstance(mp, ReferenceCountingFunctionsPolicy), 'reference counting functions as annotated')
        for k in ('incref_function', 'decref_function'):
            c.require(getattr(mp, k) == ga.get(k), k + ' as annotated')
    elif 'free_function' in ga:
        c.require(isinstance(mp, FreeFunctionPolicy) and mp.free_function == ga['free_function'], 'free_function as annotated')
    else:
        c.require(mp is None, 'no memory policy without annotation')
    c.require(bool(foo.is_singleton) == ('is_singleton' in ga), 'is_singleton as annotated')
    c.require(bool(foo.automatic_type_narrowing) == ('automatic_type_narrowing' in ga), 'automatic_type_narrowing as annotated')
    # constructor
    ga, pa = options_of(choice['ctor'])
    ctors = [k for k in foo.constructors if not isinstance(k, CppFunctionAsConstructor) and len(k.parameters) == 2]
    c.require(len(ctors) == (1 if wrapped(choice['ctor'], 'ctor', True) else 0), 'the constructor is wrapped')
    for k in ctors:
        check_params(c, 'constructor', k.parameters, pa, ['p', 'k'])
    # methods
    every = {}
    for o in foo.get_all_methods():
        every.setdefault(o.method_name if isinstance(o, CppMethod) else o.function_name, []).append(o)
    for name, sig in (('get', []), ('take', ['p', 'n'])):
        ga, pa = options_of(choice[name])
        l = every.pop(name, [])
        here = wrapped(choice[name], name, name == 'take')
        if here is not None:
            c.require(len(l) == (1 if here else 0), name + ' is wrapped as annotated')
        for k in l:
            c.require(k.mangled_name == ga.get('name', name), name + ' has the annotated name')
            c.require(bool(k.unblock_threads) == ('unblock_threads' in ga), name + ': unblock_threads as annotated')
            check_params(c, name, k.parameters, pa, sig)
            check_return(c, name, k.return_value, pa.get('return', {}))
    # functions
    have = {}
    for name, o in mod.functions.items():
        for k in o.wrappers:
            have.setdefault(k.function_name, []).append((name, k))
    for name, sig in (('make', ['n']), ('put', ['p']), ('zero', [])):
        ann = choice.get(name, '')
        ga, pa = options_of(ann)
        l = have.pop(name, [])
        here = wrapped(ann, name, name == 'put')
        if 'as_method' in ga:
            c.require(len(every.get(name, [])) == (1 if here else 0) and l == [], name + ' is wrapped as a method')
            for k in every.pop(name, []):
                c.require(k.custom_name == ga['as_method'], name + ' has the annotated name')
                check_params(c, name, k.parameters, pa, sig)
            continue
        if 'is_constructor_of' in ga:
            made = [k for k in foo.constructors if isinstance(k, CppFunctionAsConstructor)]
            c.require(len(made) == (1 if here else 0) and l == [], name + ' is wrapped as a constructor')
            for k in made:
                c.require(k.c_function_name == name, name + " is wrapped")
                check_params(c, name, k.parameters, pa, sig)
            continue
        if here is not None:
            c.require(len(l) == (1 if here else 0), name + ' is wrapped as annotated')
        for pyname, k in l:
            c.require(pyname == ga.get('name', name), name + ' has the annotated name')
            check_params(c, name, k.parameters, pa, sig)
            check_return(c, name, k.return_value, pa.get('return', {}))
            c.require(bool(k.unblock_threads) == ('unblock_threads' in ga and truth(ga['unblock_threads'])), name + ': unblock_threads as annotated')
    c.require(have == {} and every == {}, 'nothing else is wrapped')
    # every annotation is used, and only the strange ones are reported
    odd = ('strange' in choice['Foo']) + sum(1 for k in ('ctor', 'put', 'make', 'take') if '@q' in choice[k])
    bad = [x for x in w.seen if 'nnotation' in x[0]]
    c.require(len(bad) <= odd, 'annotations that are understood are not reported')
    # the script describes the same module
    out, out2 = MemoryCodeSink(), MemoryCodeSink()
    mod.generate(out)
    clean()
    env = {'__name__': 'script'}
    text = [script]
    exec(compile(text[0], 'script', 'exec'), env)
    mod2 = env['module_init']()
    env['register_types'](mod2)
    env['register_methods'](mod2)
    env['register_functions'](mod2)
    mod2.generate(out2)
    c.require(out.flush() == out2.flush(), 'the script describes the module that was scanned')


# HARNESSES
HARNESSES = {
    'place': {'all': {'split': {'d1': 6, 'd2': 6}}},
    'content': {'all': {'split': {'n': 2, 'style': 2, 'form0': 9}}},
    'headers': {'all': {'split': {'slot1': 7, 'slot2': 7}}},
    'options': {'all': {'split': {'what': 2, 'n': 4}}},
}
