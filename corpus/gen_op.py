"""operators and comparisons: description, C++ code, generator calls"""
import gen


class OC(object):
    """num: operator -> [(result, left, right)] in the order of registration, class names or int, double, std::string for right (inplace operators: [right]);
    cmp: comparison operators; neg: [result]; policy: shared pointer"""
    def __init__(self, name, num={}, cmp=(), neg=(), parent=None, sub=False, policy=False, ns=None):
        self.name, self.num, self.cmp, self.neg, self.parent, self.sub, self.policy, self.ns = name, num, tuple(cmp), tuple(neg), parent, sub, policy, ns

    def issub(self, o):
        return self is o or (self.parent is not None and self.parent.issub(o))

    @property
    def full(self):
        return (self.ns + '::' if self.ns else '') + self.name

    def canpy(self):
        return self.sub or (self.parent is not None and self.parent.canpy())


def logv(t, e):
    return {'int': 'vh_i(%s);', 'double': 'vh_d(%s);', 'std::string': 'vh_ss(%s);'}.get(t, 'vh_i(%s.v);') % e


def ops(classes):
    """every operator function once: (kind, name of the event, C++ operator, result, left, right)"""
    out = []
    seen = set()

    def add(kind, op, res, l, r):
        n = l + op + r
        if (kind, n) not in seen:
            seen.add((kind, n))
            out.append((kind, n, op, res, l, r))
    for c in classes:
        for op in sorted(c.num):
            for e in c.num[op]:
                if len(op) == 2:
                    add('in', op, c.name, c.name, e)
                else:
                    add('bin', op, *e)
        for r in c.neg:
            add('neg', '-', r, c.name, '')
        for op in c.cmp:
            add('cmp', op, 'bool', c.name, c.name)
    return out


def header(classes):
    by = dict((c.name, c) for c in classes)
    o = ['#ifndef LIB_H', '#define LIB_H', '#include "vh.h"', gen.EXC_SRC, 'extern int g_live;']
    for c in classes:
        d = ['struct %s%s {' % (c.name, ' : ' + c.parent.name if c.parent else '')]
        if c.parent:
            d.append('  explicit %s(int x = 0) : %s(x) {}' % (c.name, c.parent.name))
        else:
            d.append('  int v; explicit %s(int x = 0) : v(x) { g_live++; } %s(const %s &o) : v(o.v) { g_live++; } %s &operator=(const %s &o) { v = o.v; return *this; } ~%s() { v = -77; g_live--; }' % ((c.name,) * 6))
        for kind, n, op, res, l, r in ops(classes):
            if kind == 'in' and l == c.name:
                d.append('  %s &operator%s(%s b);' % (l, op, arg(by, r)))
        d.append('};')
        if c.ns:
            d = ['namespace %s {' % c.ns] + d + ['}']
        o += d
    for kind, n, op, res, l, r in ops(classes):
        if kind == 'bin':
            o.append('%s operator%s(%s a, %s b);' % (by[res].full if res in by else res, op, arg(by, l), arg(by, r)))
        elif kind == 'neg':
            o.append('%s operator-(%s a);' % (by[res].full, arg(by, l)))
        elif kind == 'cmp':
            o.append('bool operator%s(%s a, %s b);' % (op, arg(by, l), arg(by, r)))
    o.append('#endif')
    return '\n'.join(o) + '\n'


def arg(by, t):
    return 'const %s &' % by[t].full if t in by else 'const std::string &' if t == 'std::string' else t


def source(classes):
    by = dict((c.name, c) for c in classes)
    o = ['#include "lib.h"', gen.RT, 'int g_live;']
    for kind, n, op, res, l, r in ops(classes):
        b = 'vh_ev("%s"); ' % n
        if kind == 'neg':
            b = 'vh_ev("%s"); ' % n + logv(l, 'a')
        elif kind == 'in':
            b += 'vh_i(v); ' + logv(r, 'b')
        else:
            b += logv(l, 'a') + ' ' + logv(r, 'b')
        if kind == 'in':
            b += ' v = (int) vh_int("%s", 32); return *this;' % n
            o.append('%s &%s::operator%s(%s b) { %s }' % (by[l].full, by[l].full, op, arg(by, r), b))
        elif kind == 'cmp':
            o.append('bool operator%s(%s a, %s b) { %s return vh_choose("%s", 2) != 0; }' % (op, arg(by, l), arg(by, r), b, n))
        else:
            if res in by:
                b += ' %s r; r.v = (int) vh_int("%s", 32); return r;' % (by[res].full, n)
            else:
                b += ' return (int) vh_int("%s", 32);' % n
            o.append('%s operator%s(%s) { %s }' % (by[res].full if res in by else res, op, arg(by, l) + ' a' + ('' if kind == 'neg' else ', ' + arg(by, r) + ' b'), b))
    o.append('extern "C" void vh_reset() { delete g_str; g_str = NULL; }')
    o.append('extern "C" int vh_live() { return g_live; }')
    return '\n'.join(o) + '\n'


def generate(name, classes, outfile):
    from pybindgen import Module, FileCodeSink, param
    from pybindgen import cppclass
    m = Module(name)
    m.add_include('"lib.h"')
    if any(c.policy for c in classes):
        m.add_include('<memory>')
    ks = {}
    ns = {}
    for c in classes:
        kw = {}
        if c.sub:
            kw['allow_subclassing'] = True
        if c.parent:
            kw['parent'] = ks[c.parent.name]
        if c.policy:
            from pybindgen.typehandlers.smart_ptr import StdSharedPtr
            kw['memory_policy'] = StdSharedPtr(c.full)
        if c.ns and c.ns not in ns:
            ns[c.ns] = m.add_cpp_namespace(c.ns)
        ks[c.name] = (ns[c.ns] if c.ns else m).add_class(c.name, **kw)
    for c in classes:
        k = ks[c.name]
        k.add_constructor([param('int', 'x')])
        k.add_copy_constructor()
        k.add_instance_attribute('v', 'int')
        for op in sorted(c.num):
            for e in c.num[op]:
                if len(op) == 2:
                    k.add_inplace_numeric_operator(op, *([] if e == c.name else [param(e, 'right') if e not in ks else param(ks[e].full_name, 'right')]))
                else:
                    r, l, rt = e
                    a = [ks[r], ks[l], ks[rt] if rt in ks else rt]
                    if a[:2] == [k, k] and rt == c.name:
                        a = []
                    elif a[:2] == [k, k]:
                        a = [None, None, rt if rt not in ks else ks[rt]]
                    k.add_binary_numeric_operator(op, *a)
        for r in c.neg:
            k.add_unary_numeric_operator('-', *([] if r == c.name else [ks[r]]))
        for op in c.cmp:
            k.add_binary_comparison_operator(op)
    with open(outfile, 'w') as o:
        m.generate(FileCodeSink(o))
