"""blocks: up to 5 (thorough 7) operations on a chain of three code blocks: add a cleanup
to any block, cancel any pending one, write an error check (with or without extra cleanup) or
plain code in any block, indent; optionally starting from 10 cleanups already
registered; then the normal-exit cleanup of the last block; then clear() and reuse.
wrapper: a real Function with up to 3 (thorough 4) mock parameters, each registering
cleanups, cancelling some and writing error checks in the before-call and after-call
blocks, optionally void / int / failing return value conversion."""
from pybindgen.typehandlers.base import CodeBlock, DeclarationsScope, Parameter, ReturnValue
from pybindgen.typehandlers.codesink import MemoryCodeSink
from pybindgen.module import Module


def blocks(c, tier):
    n = 5 if tier == 'quick' else 7
    decl = DeclarationsScope()
    b = [CodeBlock('return E0;', decl)]
    b.append(CodeBlock('return E1;', decl, predecessor=b[0]))
    b.append(CodeBlock('return E2;', decl, predecessor=b[1]))
    live = [[], [], []]                # (handle, text) in order of registration
    text = [[], [], []]
    serial = [0]

    def add(k):
        serial[0] += 1
        t = 'clean%d();' % serial[0]
        live[k].append((b[k].add_cleanup_code(t), t))

    def pending(k):
        out = []
        for j in range(k, -1, -1):
            out += [t for _, t in live[j][::-1]]
        return out
    bulk = c.choice('bulk', 2).bool()
    if bulk:
        for i in range(10):
            add(1)
        live[1].pop(3)[0].cancel()
    log = []
    for i in range(n):
        op = c.choice('op%d' % i, 4).pick(['add', 'cancel', 'check', 'stop'])
        if op == 'stop':
            break
        k = c.choice('b%d' % i, 3).pick([0, 1, 2])
        log.append((op, k))
        if op == 'add':
            add(k)
        elif op == 'cancel':
            if not live[k]:
                c.assume(False)
            j = c.choice('h%d' % i, 2).pick([0, -1]) if len(live[k]) > 1 else 0
            live[k].pop(j)[0].cancel()
        else:
            extra = (i + k) % 2 == 0
            b[k].write_error_check('bad%d' % i, 'extra();' if extra else None)
            text[k] += ['if (bad%d) {' % i] + (['    extra();'] if extra else []) + \
                ['    ' + t for t in pending(k)] + ['    return E%d;' % k, '}']
    c.note('operations', log)
    b[2].write_cleanup()
    text[2] += pending(2)
    for k in range(3):
        got = b[k].sink.flush().rstrip('\n')
        c.note('block %d' % k, got)
        c.require(got == '\n'.join(text[k]), 'every exit contains exactly the pending cleanups, newest first')
    for x in b:
        x.clear()
    b[2].add_cleanup_code('again();')
    c.require(b[2].get_cleanup_code() == ['again();'] and b[1].get_cleanup_code() == [],
              'a cleared block has no cleanups left')


class Mock(Parameter):
    """a parameter handler driven by a script"""
    DIRECTIONS = [Parameter.DIRECTION_IN]
    CTYPES = []

    def convert_python_to_c(self, wrapper):
        name = wrapper.declarations.declare_variable('int', self.name)
        wrapper.parse_params.add_parameter('i', ['&' + name], self.name)
        wrapper.call_params.append(name)
        blk = {'pre': wrapper.before_call, 'post': wrapper.after_call}
        handles = {'pre': [], 'post': []}
        for op, where in self.script:
            if op == 'acquire':
                tag = '%s_%s%d' % (self.name, where, len(handles[where]))
                blk[where].write_code('acquire(%s);' % tag)
                handles[where].append(blk[where].add_cleanup_code('release(%s);' % tag))
            elif op == 'check':
                blk[where].write_error_check('fails(%s)' % self.name)
            elif op == 'give':
                blk[where].write_code('give(%s);' % ('%s_%s%d' % (self.name, where, len(handles[where]) - 1)))
                handles[where][-1].cancel()


SCRIPTS = [[], [('acquire', 'pre')], [('check', 'pre')], [('acquire', 'pre'), ('check', 'pre')],
           [('check', 'pre'), ('acquire', 'pre'), ('acquire', 'pre'), ('check', 'pre')],
           [('acquire', 'pre'), ('give', 'pre'), ('check', 'pre')],
           [('acquire', 'post'), ('give', 'post')], [('acquire', 'pre'), ('acquire', 'post')],
           [('acquire', 'pre'), ('acquire', 'pre'), ('give', 'pre')]]
# an error check after the call is only meaningful in the last parameter: earlier ones
# would be generated before the later parameters register their cleanups
LAST = SCRIPTS + [[('acquire', 'post'), ('check', 'post')], [('acquire', 'pre'), ('check', 'post')]]


def wrapper(c, tier):
    n = c.choice('n', 3).pick([1, 2, 3])
    if tier == 'quick' and n == 3:
        sc = [c.choice('s0', 4).pick(SCRIPTS[1:5]), c.choice('s1', 4).pick(SCRIPTS[3:7]),
              c.choice('s2', len(LAST)).pick(LAST)]
    else:
        sc = [c.choice('t%d_%d' % (n, i), len(SCRIPTS) if i < n - 1 else len(LAST)).pick(SCRIPTS if i < n - 1 else LAST)
              for i in range(n)]
    params = []
    for i in range(n):
        p = Mock('int', 'p%d' % i)
        p.script = sc[i]
        params.append(p)
    rt = c.choice('rt', 2).pick(['void', 'int'])
    f = Module('m').add_function('f', ReturnValue.new(rt), params)
    c.note('scripts', sc)
    out = MemoryCodeSink()
    f.generate(out, 'wrap_f')
    code = out.flush()
    c.note('code', code)
    # walk the text in execution order; errexit: inside an error exit
    held = []
    done = []
    inside = None
    started = False
    for line in code.split('\n'):
        s = line.strip()
        if s == '{':
            started = True
        if not started:
            continue
        if s.startswith('if (') and s.endswith('{'):
            inside = []
            continue
        if inside is not None:
            if s.startswith('release('):
                inside.append(s[8:-2])
            elif s == 'return NULL;':
                c.require(inside == held[::-1], 'an error exit releases exactly what is held, newest first')
            elif s == '}':
                inside = None
            continue
        if s.startswith('acquire('):
            held.append(s[8:-2])
        elif s.startswith('give('):
            held.remove(s[5:-2])
        elif s.startswith('release('):
            done.append(s[8:-2])
        elif s.startswith('return '):
            c.require(done == held[::-1], 'the normal exit releases exactly what is held, newest first')
            done = None
    c.require(done is None, 'there is a normal exit')


# HARNESSES
HARNESSES = {
    'blocks': {'all': {'split': {'bulk': 2, 'op0': 4, 'op1': 4, 'b0': 3}}},
    'wrapper': {'quick': {'split': {'rt': 2, 'n': 3}}, 'thorough': {'split': {'rt': 2, 'n': 3}}},
}
