"""memory: up to 5 (thorough 6) operations over two memory sinks and a file sink: write one or two
lines with a symbolic payload (each character letter, space or tab), indent by 3, 4 or 6, unindent,
flush a sink into another, flush to text."""
from pybindgen.typehandlers.codesink import MemoryCodeSink, FileCodeSink, NullCodeSink


class File(object):
    name = 'f'

    def __init__(self):
        self.text = ''

    def write(self, s):
        self.text = self.text + s


def rstrip_lines(lines):
    return [l.rstrip() for l in lines]


def memory(c, tier):
    n = 5 if tier == 'quick' else 6
    f = File()
    sinks = [MemoryCodeSink(), MemoryCodeSink(), FileCodeSink(f)]
    level = [[0], [0], [0]]             # indentation stacks of the model
    held = [[], []]                     # model of the lines in memory
    final = []                          # model of the file
    log = []

    def put(k, lines):
        for l in lines:
            for piece in l.split('\n'):
                out = ' ' * level[k][-1] + piece
                if k == 2:
                    final.append(out)
                else:
                    held[k].append(out)
    for i in range(n):
        op = c.choice('op%d' % i, 5).pick(['write', 'indent', 'unindent', 'flush_to', 'stop'])
        if op == 'stop':
            break
        k = c.choice('k%d' % i, 3).pick([0, 1, 2])
        log.append((op, k))
        if op == 'write':
            s = 'L%d' % i
            for j in range(2):
                s = s + c.choice('c%d_%d' % (i, j), 4).str('x {\t')
            shape = (i + k) % 3
            if shape == 1:
                s = s + '\n  second %d' % i
            elif shape == 2 and k != 2:
                s = ''
            if s == '':
                sinks[k].writeln()
            else:
                sinks[k].writeln(s)
            put(k, [s])
        elif op == 'indent':
            lv = [4, 6, 3][(i + k) % 3]
            if lv == 4:
                sinks[k].indent()
            else:
                sinks[k].indent(lv)
            level[k].append(level[k][-1] + lv)
        elif op == 'unindent':
            c.assume(len(level[k]) > 1)
            sinks[k].unindent()
            level[k].pop()
        else:
            c.assume(k != 2)
            to = 1 - k if (i % 2 == 0) else 2
            sinks[k].flush_to(sinks[to])
            lines, held[k] = held[k], []
            put(to, [l.rstrip() for l in lines])
    c.note('operations', log)
    c.note('file', f.text)
    got = f.text.split('\n')
    c.require(got[-1] == '', 'the file ends with a newline' )
    c.require(rstrip_lines(got[:-1]) == rstrip_lines(final), 'the file holds the written lines in order, indented')
    for k in (0, 1):
        for again in (0, 1):
            t = sinks[k].flush()
            c.note('flush %d' % k, t)
            want = [' ' * level[k][-1] + l for l in held[k]]
            c.require(t.endswith('\n'), 'flushed text ends with a newline')
            c.require(rstrip_lines(t[:-1].split('\n')) == rstrip_lines(want) if want else t.strip() == '',
                      'flushing gives the held lines in order, indented, and only once')
            held[k] = []


# HARNESSES
HARNESSES = {
    'memory': {'all': {'split': {'op0': 5, 'k0': 3}}},
}
