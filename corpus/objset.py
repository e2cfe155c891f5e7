"""the functions declared for every class of an objects corpus module"""
import gen
import gen_obj
import sc_obj
from gen import P
from gen_obj import C, O, R, OF


def funcs_for(c, other=None):
    n = c.name
    fs = []

    def add(suffix, *a, **k):
        fs.append(OF('%s_%s' % (n, suffix), *a, **k))
    shared = c.pol == 'shared'
    if c.copy and not c.parent:
        add('val', 'void', [O(c, 'x', 'val')])
        add('rval', R(c, 'val'))
    add('cref', 'int', [O(c, 'x', 'cref')])
    add('ref', 'void', [O(c, 'x', 'ref'), P('int8_t', 'k')])
    add('inout', 'void', [O(c, 'x', 'ref', 'inout')])
    add('ptr', 'void', [O(c, 'x', 'ptr')])
    add('opt', 'void', [O(c, 'x', 'ptr', null=True), O(c, 'y', 'ptr', null=True, default='NULL')])
    if not shared:
        add('cptr', 'std::string', [O(c, 'x', 'cptr'), P('std::string', 's')])
    if shared or not c.parent:
        if not shared:
            add('take', 'void', [O(c, 'x', 'ptr', transfer_ownership=True)])
            add('take2', 'void', [O(c, 'x', 'ptr', transfer_ownership=True), O(c, 'y', 'ptr', null=True)])
            add('takeopt', 'int', [O(c, 'x', 'ptr', null=True, transfer_ownership=True)])
            add('takethrow', 'void', [O(c, 'x', 'ptr', transfer_ownership=True)], throw=('Err',))
    if not c.parent and c.ctor:
        add('out', 'int', [O(c, 'x', 'ref', 'out'), P('bool', 'k')])
        add('mixed', 'std::string', [P('int8_t', 'a'), O(c, 'x', 'cref'), P('int&', 'o', 'out'), O(c, 'y', 'ptr', null=True)], throw=('MsgErr', 'Err'))
    if not c.parent:
        add('new', R(c, 'new'))
        add('newnull', R(c, 'new', null=True), [P('int&', 'o', 'out')])
        add('exist', R(c, 'exist'))
        if c.copy:
            if not shared:
                add('copy', R(c, 'copy'))
                add('rcptr', R(c, 'cptr'))
                add('gift', R(c, 'gift'))
                if c.pol is None:
                    add('freecopy', R(c, 'freecopy'))
                add('pass', R(c, 'pass', caller_owns_return=False), [O(c, 'x', 'ptr')])
                add('rrefexist', R(c, 'refexist'))
            else:
                add('pass', R(c, 'pass'), [O(c, 'x', 'ptr')])
            add('rref', R(c, 'ref'), [P('std::string', 's')])
            add('rcref', R(c, 'cref'))
        # methods
        add('mptr', R(c, 'exist'), [O(c, 'x', 'ptr'), P('uint8_t', 'k')], cls=c, pyname='m')
        if not shared:
            add('mtake', 'void', [O(c, 'x', 'ptr', transfer_ownership=True), P('int', 'k')], cls=c, pyname='t', throw=('SubErr',))
    return fs


def no_exc(f):
    return [p for p in f.params if isinstance(p, O)]


def scenarios(classes, funcs, tags=('P10',), registry=False, lives=True):
    by = dict((c.name, c) for c in classes)
    out = []
    for f in funcs:
        if isinstance(f.ret, R) and f.ret.how == 'gift':
            continue            # in the life cycles
        os = [p for p in f.params if isinstance(p, O) and p.is_in()]

        def kinds(p, i, f=f, os=os):
            first = p is os[0]
            subs = [c.name for c in classes if c is not p.c and c.is_sub(p.c) and c.reg]
            subs = subs[:2] if lives else subs
            others = [c.name for c in classes if c.root is not p.c.root][:1]
            if p.c.regparent:
                others.append(p.c.regparent.name)
            if not lives:
                # siblings, and Python subclasses
                others += [c.name for c in classes if c.root is p.c.root and c.reg and not c.is_sub(p.c) and not p.c.is_sub(c)][:3]
                others += ['py:' + c.name for c in classes if c.root is p.c.root and c.can_sub()][:3]
                others = list(dict.fromkeys(others))
            impl = [c.name for c in getattr(p.c, 'implicit', ())]
            if first:
                return ['inst'] + subs + impl + ['none', 'int', 'liar', 'liar0'] + others
            return ['inst', 'none', 'int', 'same'] + subs[:1]
        cl = dict(by)
        cl['dyn'] = lambda n: by[n]
        t = tags
        if any(any(c.is_sub(p.c) and c is not p.c for c in classes) or p.c.parent for p in os) or f.kw.get('dyn'):
            t = tuple(tags) + ('P20',)
        out.append(sc_obj.OCall(f, 'pos', kinds, cl, t, registry))
        if any(p.default for p in os):
            out.append(sc_obj.OCall(f, 'omit', kinds, cl, t, registry))
    for c in classes:
        if c.parent or c.singleton or not c.ctor or not lives:
            continue
        ops = ['new', 'exist', 'poke', 'drop', 'write', 'lend']
        if c.copy:
            ops += ['val', 'dup', 'copyctor']
            if c.pol != 'shared':
                ops += ['copy', 'gift']
        if c.pol != 'shared':
            ops.append('give')
        if c.sub:
            ops += ['attr', 'cycle']
        out += sc_obj.Life(c, ops, 3, tuple(tags) + (('P19',) if registry else ()), registry).split()
    return out
