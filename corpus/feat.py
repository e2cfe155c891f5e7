"""helpers of the corpus modules that are written by hand: one feature of the generator each, scenarios as functions of the driver"""
import gen
from sc_obj import i32

OBJ = '''#define OBJ(N, V) int v; int id; static int live; \\
  N(int x) : v(x), id(vh_id()) { live++; } N(const N &o) : v(o.v), id(vh_id()) { live++; } V ~N() { v = -77; live--; } \\
  int ident() const { return id; }
static inline int g(const char *n) { return (int) vh_int(n, 32); }
'''


class Ft(object):
    """h: class declarations (one static live counter per class in objs), s: definitions, gen(m, made): generator calls"""
    def __init__(self, objs, h, s, gen):
        self.objs, self.h, self.s, self.gen = objs, h, s, gen


class Sc(object):
    def __init__(self, name, fn, tags, weight=1):
        self.name, self.fn, self.tags, self.weight = name, fn, tags, weight

    def run(self, d):
        self.fn(d)


def header(fts, extra=''):
    return '\n'.join(['#ifndef LIB_H', '#define LIB_H', '#include "vh.h"', extra, gen.EXC_SRC, OBJ] + [f.h for f in fts] + ['#endif']) + '\n'


def source(fts):
    o = ['#include "lib.h"', gen.RT]
    objs = [c for f in fts for c in f.objs]
    o += ['%sint %s::live = 0;' % ('template <> ' if '<' in c else '', c) for c in objs]
    o += [f.s for f in fts]
    o.append('extern "C" void vh_reset() { delete g_str; g_str = NULL; %s }' % ' '.join(getattr(f, 'reset', '') for f in fts))
    o.append('extern "C" int vh_live() { return %s; }' % ' + '.join(['0'] + ['%s::live' % c for c in objs]))
    return '\n'.join(o) + '\n'


def generate(name, fts, outfile):
    from pybindgen import Module, FileCodeSink
    m = Module(name)
    m.add_include('"lib.h"')
    made = gen.add_exceptions(m)
    for f in fts:
        f.gen(m, made)
    with open(outfile, 'w') as o:
        m.generate(FileCodeSink(o))


def attr(d, path):
    o = d.module()
    for n in path.split('.'):
        o = d.getattr(o, n)
        d.require(o is not None, '%s is missing' % path)
    return o


def num(d, name, lo=-(1 << 31), hi=(1 << 31) - 1):
    """symbolic value and its Python integer"""
    v = d.ivar(name)
    d.assume(d.inrange(v, lo, hi))
    return v, d.int(v)


def ran(d, ev, vals, what='the call'):
    """exactly one C++ function ran, with these values"""
    evs = [e for e in d.events() if e[0] != 'warning']
    d.require(len(evs) == 1 and evs[0][0] == ev, '%s: ran %s instead of %s' % (what, [e[0] for e in evs], ev))
    d.require(evs[0][1], '%s: the interpreter lock is not held' % what)
    d.require(len(evs[0][2]) == len(vals), '%s: wrong number of values' % what)
    for x, y in zip(evs[0][2], vals):
        d.require(d.eq(x, y), '%s: the C++ function sees another value' % what)


def silent(d, what='the call'):
    d.require(not [e for e in d.events() if e[0] != 'warning'], '%s: C++ code runs' % what)


def ok(d, r, what='the call'):
    d.require(r is not None, '%s fails (%s)' % (what, d.xname))
    return r


def fails(d, r, exc, what='the call'):
    d.require(r is None, '%s succeeds' % what)
    d.require(d.xname == exc, '%s raises %s instead of %s' % (what, d.xname, exc))


def isint(d, r, v, what='the result'):
    d.require(r is not None and d.kind(r) == 'int' and d.eq(d.ival(r), v), '%s has the wrong value' % what)


def res(d, tag, k=0):
    return d.cint('%s#%d' % (tag, k), 32, 1)


def new(d, path, tag='v'):
    v, o = num(d, tag)
    r = ok(d, d.call(attr(d, path), [o]), 'the constructor of %s' % path)
    d.require(d.type_is(r, attr(d, path)), 'the object is not an instance of %s' % path)
    d.events()
    return r, v


def field(d, o, n='v'):
    h = d.getattr(o, n)
    d.require(h is not None, 'the attribute %s cannot be read' % n)
    return d.ival(h)


def ident(d, o):
    return d.ival(ok(d, d.callm(o, 'ident'), 'a method'))
