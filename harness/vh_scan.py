"""Reads generated C++ text: what is defined, declared, registered and used.

Plain (not instrumented) helper of harness/P21.py: it sees concrete text."""
import re

KNOWN = {'PY_VERSION_HEX': 0x030c00f0, 'PY_MAJOR_VERSION': 3, '__GNUC__': 13, '__GNUC_MINOR__': 3,
         'PY_MINOR_VERSION': 12, '__GXX_ABI_VERSION': 1018}
SLOTS = ('name basicsize itemsize dealloc print getattr setattr compare repr number sequence mapping hash call str '
         'getattro setattro buffer flags doc traverse clear richcompare weaklistoffset iter iternext methods members '
         'getset base dict descr_get descr_set dictoffset init alloc new free is_gc bases mro cache subclasses '
         'weaklist del').split()
_STR = r'"(?:[^"\\\n]|\\.)*"'
_CHR = r"'(?:[^'\\\n]|\\.)*'"
_COM = re.compile(r'//[^\n]*|/\*.*?\*/|' + _STR + '|' + _CHR, re.S)
QIDENT = re.compile(r'[A-Za-z_][\w:]*')
IDENT = re.compile(r'[A-Za-z_]\w*')


class Bad(Exception):
    pass


def strip_comments(t):
    return _COM.sub(lambda m: m.group(0) if m.group(0)[0] in '"\'' else ' ', t)


def _cond(e):
    e = re.sub(r'defined\s*\(?\s*(\w+)\s*\)?', lambda m: '1' if m.group(1) in KNOWN or m.group(1) == '__cplusplus' else '0', e)
    e = e.replace('&&', ' and ').replace('||', ' or ').replace('!=', '<>').replace('!', ' not ').replace('<>', '!=')
    e = re.sub(r'\b[A-Za-z_]\w*\b', lambda m: m.group(0) if m.group(0) in ('and', 'or', 'not') else str(KNOWN.get(m.group(0), 0)), e)
    return bool(eval(e, {}, {}))


def preprocess(t, defines):
    out, stack = [], []           # stack of [active, taken, parent_active]
    act = True
    for ln in t.replace('\\\n', ' ').split('\n'):
        s = ln.strip()
        if s.startswith('#'):
            m = re.match(r'#\s*(\w+)\s*(.*)', s)
            if not m:
                continue
            d, arg = m.group(1), m.group(2)
            if d in ('if', 'ifdef', 'ifndef'):
                if d == 'if':
                    v = act and _cond(arg)
                else:
                    v = (arg.strip() in defines or arg.strip() in KNOWN or arg.strip() == '__cplusplus') == (d == 'ifdef')
                stack.append([act, v])
                act = act and v
            elif d == 'elif':
                v = not stack[-1][1] and _cond(arg)
                act = stack[-1][0] and v
                stack[-1][1] = stack[-1][1] or v
            elif d == 'else':
                act = stack[-1][0] and not stack[-1][1]
            elif d == 'endif':
                act = stack.pop()[0]
            elif d == 'define' and act:
                defines.add(re.match(r'\w+', arg).group(0))
            elif d == 'include' and act:
                out.append('')
            continue
        if act:
            out.append(ln)
    if stack:
        raise Bad('unbalanced conditional compilation')
    return '\n'.join(out)


_TOK = re.compile(_STR + '|' + _CHR + r'|[{};()]')


def items(t):
    """top-level items of a C++ text: (head, body or None)"""
    out = []
    i, start, n = 0, 0, len(t)
    depth = par = 0
    body0 = None
    for m in _TOK.finditer(t):
        ch = m.group(0)
        if ch[0] in '"\'':
            continue
        if ch == '(':
            par += 1
        elif ch == ')':
            par -= 1
            if par < 0:
                raise Bad('unbalanced parentheses near %r' % t[max(0, m.start() - 60):m.start() + 20])
        elif ch == '{':
            if depth == 0:
                body0 = m.start()
            depth += 1
        elif ch == '}':
            depth -= 1
            if depth < 0:
                raise Bad('unbalanced braces near %r' % t[max(0, m.start() - 60):m.start() + 20])
            if depth == 0:
                head = t[start:body0].strip()
                body = t[body0 + 1:m.start()]
                if re.match(r'(extern\s*"C"|namespace\b)', head) and not re.search(r'[()]', head):
                    out.extend(items(body))
                    start = m.end()
                elif '=' not in head and head.endswith(')') or re.search(r'\)\s*(const)?\s*(:[^;]*)?$', head) and '=' not in head:
                    out.append((head, body))
                    start = m.end()
                body_end = m.end()
                last_body = (head, body)
        elif ch == ';' and depth == 0 and par == 0:
            seg = t[start:m.start()].strip()
            if body0 is not None and body0 >= start:
                out.append((seg[:0] + t[start:body0].strip() + ' {} ' + t[body_end:m.start()].strip(), last_body[1]))
            elif seg:
                out.append((seg, None))
            start = m.end()
    if depth or par:
        raise Bad('unbalanced text')
    rest = t[start:].strip()
    if rest:
        raise Bad('trailing text %r' % rest[:80])
    return out


def split_top(s):
    out, d, cur, i = [], 0, [], 0
    for m in re.finditer(_STR + '|' + _CHR + r'|[(){}\[\],]|[^(){}\[\],"\']+', s, re.S):
        x = m.group(0)
        if x in '({[':
            d += 1
        elif x in ')}]':
            d -= 1
        if x == ',' and d == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(x)
    if ''.join(cur).strip():
        out.append(''.join(cur).strip())
    return out


def _name_before_paren(head):
    h = head
    # drop a constructor's initialisers and trailing const
    d = 0
    for i, ch in enumerate(h):
        if ch == '(' and d == 0:
            m = re.search(r'([A-Za-z_~][\w:~]*)\s*$', h[:i])
            if m:
                return m.group(1)
            return None
    return None


class TU(object):
    """one generated file, in the context of the common header"""

    def __init__(self, name):
        self.name = name
        self.defined = {}        # symbol -> (static, position)
        self.declared = {}       # symbol -> (static, first position)
        self.uses = []           # (symbol, position)
        self.entries = []


class Scan(object):
    def __init__(self, files, header=None):
        """files: {name: text}; header: name of the common header, included first by the others"""
        self.tables, self.getsets, self.types, self.bodies, self.inits = {}, {}, {}, {}, {}
        self.moddefs, self.home, self.seqs, self.problems, self.structs = {}, {}, {}, [], {}
        self.arrays = {}
        hdr = None
        order = sorted(files, key=lambda f: f != header)
        self.tus = {}
        for f in order:
            tu = self.tus[f] = TU(f)
            if header and f != header:
                tu.declared.update((k, (v[0], -1)) for k, v in hdr.declared.items())
                tu.declared.update((k, (v[0], -1)) for k, v in hdr.defined.items())
            self._read(tu, files[f])
            if f == header:
                hdr = tu
        self._link(header)

    def problem(self, s):
        self.problems.append(s)

    def _define(self, tu, name, static, pos, kind='symbol'):
        if name in tu.defined:
            self.problem('%s %s is defined twice in %s' % (kind, name, tu.name))
        tu.defined[name] = (static, pos)
        tu.declared.setdefault(name, (static, pos))
        if not static or name not in self.home:
            if name in self.home and not (self.tus[self.home[name]].defined.get(name, (True,))[0]):
                self.problem('%s %s is defined in %s and %s' % (kind, name, self.home[name], tu.name))
            self.home[name] = tu.name

    def _read(self, tu, text):
        t = preprocess(strip_comments(text), set())
        try:
            its = items(t)
        except Bad as ex:
            self.problem('%s: %s' % (tu.name, ex))
            return
        for pos, (head, body) in enumerate(its):
            head = re.sub(r'__attribute__\s*\(\((?:[^()]|\([^()]*\)|\((?:[^()]|\([^()]*\))*\))*\)\)', ' ', head)
            head = re.sub(r'extern\s*"C"', ' ', head).strip()
            static = bool(re.match(r'static\b', head))
            if '{}' in head and body is not None:
                pre, post = head.split('{}', 1)
                pre, post = pre.strip(), post.strip()
                m = re.match(r'(?:static\s+)?(?:const\s+)?(?:struct\s+)?([\w:]+)\s+(\w+)\s*(\[[^\]]*\])?\s*=$', pre)
                if m:
                    typ, name = m.group(1), m.group(2)
                    self._define(tu, name, static, pos)
                    self._uses(tu, body, pos)
                    self._init(tu, typ, name, split_top(body))
                    continue
                if pre.startswith('typedef'):
                    name = post
                    self._define(tu, name, True, pos, 'type')
                    self.structs.setdefault(name, []).append(tu.name)
                    continue
                m = re.match(r'(?:template\s*<[^{]*>\s*)?(class|struct)\s+([\w:]+)', pre)
                if m:
                    self._define(tu, m.group(2), True, pos, 'class')
                    self.structs.setdefault(m.group(2), []).append(tu.name)
                    self.bodies.setdefault('class ' + m.group(2), body)
                    continue
                if re.match(r'enum\b', pre):
                    continue
                self.problem('%s: not understood: %r' % (tu.name, pre[:80]))
                continue
            if body is not None:
                name = _name_before_paren(head)
                if head.startswith('MOD_INIT'):
                    name = 'PyInit_' + head[head.index('(') + 1:head.index(')')].strip()
                if name is None:
                    self.problem('%s: not understood: %r' % (tu.name, head[:80]))
                    continue
                self._define(tu, name, static, pos, 'function')
                if name in self.bodies:
                    self.bodies[name] += body
                else:
                    self.bodies[name] = body
                self._uses(tu, body, pos)
                if 'PyModule_Create' in body:
                    self._read_init(name, body)
                continue
            # declarations
            if head.startswith('typedef'):
                m = re.search(r'(\w+)$', head)
                if m:
                    tu.declared.setdefault(m.group(1), (True, pos))
                continue
            if head.startswith('extern') or '(' in head:
                name = _name_before_paren(head) if '(' in head else re.search(r'([\w:]+)$', head).group(1)
                if name:
                    tu.declared.setdefault(name, (static, pos))
                continue
            m = re.match(r'(?:static\s+)?(?:class|struct)\s+([\w:]+)$', head)
            if m:
                tu.declared.setdefault(m.group(1), (True, pos))
                continue
            m = re.match(r'(?:static\s+)?(?:const\s+)?([\w:<>,\s]+?[\s\*&]+)(\w+)\s*(=.*)?$', head, re.S)
            if m and not head.startswith('using'):
                self._define(tu, m.group(2), static, pos)
                self._uses(tu, m.group(3) or '', pos)
                continue
            if head.startswith('using'):
                continue
            self.problem('%s: not understood: %r' % (tu.name, head[:80]))

    def _uses(self, tu, text, pos):
        t = re.sub(_STR, '', text)
        for m in set(QIDENT.findall(t)):
            tu.uses.append((m, pos))

    def _init(self, tu, typ, name, elems):
        if typ == 'PyMethodDef':
            rows = []
            for e in elems:
                f = split_top(e.strip()[1:-1])
                if f[0].strip() == 'NULL':
                    rows.append(None)
                    continue
                rows.append((re.search(_STR, f[0]).group(0)[1:-1], QIDENT.findall(f[1])[-1], f[2]))
            if rows.count(None) != 1 or rows[-1] is not None:
                self.problem('method table %s is not terminated once, at its end' % name)
            self.tables[name] = [r for r in rows if r]
        elif typ == 'PyGetSetDef':
            rows = []
            for e in elems:
                f = split_top(e.strip()[1:-1])
                if f[0].strip() == 'NULL':
                    rows.append(None)
                    continue
                rows.append((re.search(_STR, f[0]).group(0)[1:-1], IDENT.findall(f[1])[-1], IDENT.findall(f[2])[-1]))
            if rows.count(None) != 1 or rows[-1] is not None:
                self.problem('attribute table %s is not terminated once, at its end' % name)
            self.getsets[name] = [r for r in rows if r]
        elif typ == 'PyTypeObject':
            d = {}
            for k, e in zip(SLOTS, elems):
                if k in ('name', 'doc'):
                    m = re.search(_STR, e)
                    d[k] = m.group(0)[1:-1] if m else None
                else:
                    ids = [x for x in IDENT.findall(e)]
                    d[k] = None if not ids or ids[-1] == 'NULL' or re.search(r'\b0$', e.strip()) else ids[-1]
            if len(elems) < 40:
                self.problem('type object %s has only %d fields' % (name, len(elems)))
            self.types[name] = d
        elif typ == 'PyModuleDef':
            self.moddefs[name] = [re.search(_STR, elems[1]).group(0)[1:-1], elems[4].strip()]
        else:
            self.arrays[name] = [typ] + elems

    def _read_init(self, name, body):
        """an init function: what it registers, in order"""
        ev = []
        md = re.search(r'PyModule_Create\s*\(\s*&\s*(\w+)', body).group(1)
        pat = re.compile(r'PyModule_AddObject\s*\(\s*m\s*,\s*(?:\(char \*\)\s*)?(%s)\s*,\s*([^;]*)\)\s*;' % _STR +
                         r'|PyModule_AddIntConstant\s*\(\s*m\s*,\s*(?:\(char \*\)\s*)?(%s)\s*,\s*([^;]*)\)\s*;' % _STR +
                         r'|PyDict_SetItemString\s*\(\s*(?:\(PyObject\s*\*\)\s*)?(\w+)\.tp_dict\s*,\s*(?:\(char \*\)\s*)?(%s)\s*,\s*([^;]*)\)\s*;' % _STR +
                         r'|PyType_Ready\s*\(\s*&\s*(\w+)\s*\)' +
                         r'|(\w+)\s*=\s*(init\w+)\s*\(\s*\)' +
                         r'|tmp_value\s*=\s*PyLong_FromLong\s*\(([^;]*)\)\s*;' +
                         r'|\(?(\w+)\s*=\s*\(PyTypeObject\*\)\s*PyErr_NewException\s*\(\s*\(char\*\)\s*(%s)' % _STR)
        val = sub = None
        for m in pat.finditer(body):
            g = m.groups()
            if g[0]:
                obj = IDENT.findall(g[1])[-1]
                if obj == 'submodule':
                    obj = sub
                ev.append(('object', g[0][1:-1], obj))
            elif g[2]:
                ev.append(('int', g[2][1:-1], g[3].strip()))
            elif g[4]:
                v = IDENT.findall(g[6])[-1]
                ev.append(('member', g[4], g[5][1:-1], val if v == 'tmp_value' else v))
            elif g[7]:
                ev.append(('ready', g[7]))
            elif g[9]:
                sub = g[9]
            elif g[10]:
                val = g[10].strip()
            elif g[11]:
                ev.append(('newexc', g[11], g[12][1:-1]))
        self.inits[name] = (md, ev)

    CPY = re.compile(r'^(Py(?:Float|List|Tuple|Dict|Type|BaseObject|CFunction|Long|Int|String|Bytes|Unicode|Bool|Code|Function|Method|Module|None|Object|Number|Slice|Set)(?:Type)?_Type|tp_methods|tp_getset|PyNumberMethods|_wrap)$')
    OURS = re.compile(r'^((?:Py\w+__PythonHelper::)?_wrap_\w+|\w+_Type|\w+_methods|\w+_getsets|\w+_functions|\w+_moduledef|Py\w+__PythonHelper|\w+__(?:sq|nb|mp|tp)_\w+|init(?!proc$)[a-zA-Z]\w*)$')

    def _link(self, header):
        alldef = {}
        for tu in self.tus.values():
            for k, v in tu.defined.items():
                alldef.setdefault(k, []).append((tu.name, v[0]))
        for tu in self.tus.values():
            for sym, pos in tu.uses:
                ours = self.OURS.match(sym) and not self.CPY.match(sym)
                if sym not in alldef and not ours:
                    continue
                if '::' in sym:
                    if ours and sym not in alldef:
                        self.problem('%s is used in %s but never defined' % (sym, tu.name))
                    continue
                dl = tu.declared.get(sym)
                if dl is None:
                    if sym in alldef and not ours:
                        continue          # a local name that happens to coincide
                    self.problem('%s is used in %s but not declared there' % (sym, tu.name))
                elif dl[1] > pos:
                    if ours:
                        self.problem('%s is used in %s before its declaration' % (sym, tu.name))
                elif ours and sym not in alldef:
                    self.problem('%s is used in %s but never defined' % (sym, tu.name))
                elif ours and tu.name not in [d[0] for d in alldef[sym]] \
                        and not [d for d in alldef[sym] if not d[1] or d[0] == header]:
                    self.problem('%s is used in %s but is local to another file' % (sym, tu.name))

    def reach(self, sym, seen=None):
        """text of the function and of the functions it refers to"""
        seen = set() if seen is None else seen
        if sym in seen or sym not in self.bodies:
            return ''
        seen.add(sym)
        b = self.bodies[sym]
        out = [b]
        for i in set(IDENT.findall(re.sub(_STR, '', b))):
            if i.startswith('_wrap_') and not i.startswith('_wrap_convert'):
                out.append(self.reach(i, seen))
        return '\n'.join(out)

    def callers(self, name):
        """wrappers whose own body calls `name`"""
        p = re.compile(r'(?<![\w])%s\s*\(' % re.escape(name))
        return sorted(s for s, b in self.bodies.items() if not s.startswith('class ') and p.search(re.sub(_STR, '', b)))

    def calls(self, text, name):
        return len(re.findall(r'(?<![\w])%s\s*\(' % re.escape(name), re.sub(_STR, '', text)))


def scan(files, header=None):
    return Scan(files, header)
