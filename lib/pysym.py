"""pysym: dynamic symbolic execution of the real Python code of pybindgen.

The modules under test are loaded from /repo's current source through an
import hook that rewrites every operation through which a symbolic value could
silently be read by C code (calls, `in`, subscripts, %, f-strings) into a call
to the hooks below.  Symbolic values:

  SymBool  a z3 Bool; truth-testing it forks the path (both sides are decided
           feasible/infeasible by z3)
  SymStr   a str subclass of concrete length whose characters are literals or
           functions of a finite-domain z3 bit-vector variable
  SymInt   a z3 integer-valued choice over a finite range

Any builtin that has no model receives *concretised* arguments: the path is
forked on the equality with one concrete value, the complement is explored
later, so concretisation loses no behaviour (it only costs paths).

Exploration is by re-execution (depth first); a property is an assertion whose
negation z3 must refute under each path condition.
"""
import ast, builtins, importlib.abc, importlib.util, os, sys, time, types
import z3
from re import Pattern as _Pattern, compile as _rx_compile
_RxMethod = type(_rx_compile('').match)

REPO = os.environ.get("VERIF_REPO", "/repo")


class PathAbort(BaseException):
    """the current path is infeasible or assumed away"""


class Violation(BaseException):
    def __init__(self, msg, values):
        BaseException.__init__(self, msg)
        self.msg = msg
        self.values = values


class BudgetExceeded(BaseException):
    pass


# ---------------------------------------------------------------- formulas
# A small formula layer in front of z3: membership atoms over finite-domain
# variables, simplified against the domain each variable already has on the
# current path.  Everything that remains undecided goes to z3.

class F(object):
    __slots__ = ()


class _Const(F):
    __slots__ = ('val',)

    def __init__(self, val):
        self.val = val


TRUE = _Const(True)
FALSE = _Const(False)


class Mem(F):
    __slots__ = ('var', 'set')

    def __init__(self, var, s):
        self.var, self.set = var, s


class AndF(F):
    __slots__ = ('args',)

    def __init__(self, args):
        self.args = args


class OrF(F):
    __slots__ = ('args',)

    def __init__(self, args):
        self.args = args


def f_const(b):
    return TRUE if b else FALSE


def f_mem(var, idxs):
    dom = Ctx.cur.dom.get(var.name, var.full)
    s = dom & idxs
    if not s:
        return FALSE
    if len(s) == len(dom):
        return TRUE
    return Mem(var, s)


def f_and(args):
    mems, rest = {}, []
    for a in args:
        if a is TRUE:
            continue
        if a is FALSE:
            return FALSE
        if type(a) is Mem:
            if a.var.name in mems:
                o = mems[a.var.name]
                st = o.set & a.set
                if not st:
                    return FALSE
                mems[a.var.name] = Mem(a.var, st)
            else:
                mems[a.var.name] = a
        elif type(a) is AndF:
            r = f_and(list(mems.values()) + rest + a.args)
            if r is FALSE:
                return r
            mems, rest = {}, [r] if type(r) is not AndF else []
            for x in (r.args if type(r) is AndF else []):
                if type(x) is Mem:
                    mems[x.var.name] = x
                else:
                    rest.append(x)
        else:
            rest.append(a)
    out = list(mems.values()) + rest
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else AndF(out)


def f_or(args):
    mems, rest = {}, []
    for a in args:
        if a is FALSE:
            continue
        if a is TRUE:
            return TRUE
        if type(a) is OrF:
            sub = a.args
        else:
            sub = [a]
        for x in sub:
            if type(x) is Mem:
                if x.var.name in mems:
                    m = f_mem(x.var, mems[x.var.name].set | x.set)
                    if m is TRUE:
                        return TRUE
                    mems[x.var.name] = m
                else:
                    mems[x.var.name] = x
            else:
                rest.append(x)
    out = list(mems.values()) + rest
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else OrF(out)


def f_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if type(a) is Mem:
        return f_mem(a.var, a.var.full - a.set)
    if type(a) is AndF:
        return f_or([f_not(x) for x in a.args])
    return f_and([f_not(x) for x in a.args])


def f_z3(a, mem):
    if a is TRUE:
        return z3.BoolVal(True)
    if a is FALSE:
        return z3.BoolVal(False)
    if type(a) is Mem:
        key = (a.var.name, a.set)
        r = mem.get(key)
        if r is None:
            # positive atoms only: formulas stay monotone in them, so a value
            # outside the domain never satisfies more than one inside it
            r = z3.Or([a.var.v == i for i in sorted(a.set)])
            mem[key] = r
        return r
    if type(a) is AndF:
        return z3.And([f_z3(x, mem) for x in a.args])
    return z3.Or([f_z3(x, mem) for x in a.args])


def f_iff(a, b):
    return f_or([f_and([a, b]), f_and([f_not(a), f_not(b)])])


def f_vars(a, out):
    if type(a) is Mem:
        out.add(a.var.name)
    elif type(a) in (AndF, OrF):
        for x in a.args:
            f_vars(x, out)
    return out


class Ctx(object):
    cur = None
    symbolic = True

    def __init__(self, max_paths=100000, max_seconds=600, fixed=None):
        self.fixed = fixed or {}
        self.split, self.bad_split = {}, None      # number of shards by choice
        self.solver = z3.SolverFor("QF_FD")
        self.decisions = []      # [formula taken, value, alternative pending]
        self.synced = []
        self.pos = 0
        self.vars = {}           # name -> Var
        self.max_paths = max_paths
        self.deadline = time.time() + max_seconds
        self.stats = dict(paths=0, aborted=0, queries=0, solver_s=0.0, branches=0,
                          asserts=0, complete=True, unknown=0)
        self.reached = {}
        self._mem = {}
        self.dom = {}
        self.related = {}        # variables under a multi-variable constraint -> count on this path
        self.path_models = []

    # ---- solver
    def _sync(self):
        """bring the solver's stack in line with the current path's decisions"""
        want = self.decisions
        st = self.synced
        n = 0
        while n < len(st) and n < len(want) and st[n] is want[n]:
            n += 1
        if n < len(st):
            self.solver.pop(len(st) - n)
            del st[n:]
        for d in want[n:]:
            self.solver.push()
            self.solver.add(f_z3(d[0], self._mem))
            st.append(d)

    def check(self, *assumptions):
        t = time.time()
        self._sync()
        r = self.solver.check(*assumptions)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
            raise RuntimeError("solver returned unknown")
        return r == z3.sat

    # ---- symbolic inputs
    def choice(self, name, n):
        """a symbolic value in range(n)"""
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = Var(name, n)
            if self.split.get(name, n) < n:
                self.bad_split = name
            if name in self.fixed:
                self._sync()
                self.solver.pop(len(self.synced))
                del self.synced[:]
                self.solver.add(v.v == self.fixed[name])
        assert v.n == n, name
        return v

    def _apply(self, f):
        """record a formula that holds from here on, on this path"""
        for x in (f.args if type(f) is AndF else [f]):
            if type(x) is Mem:
                self.dom[x.var.name] = self.dom.get(x.var.name, x.var.full) & x.set
            elif type(x) is OrF:
                for v in f_vars(x, set()):
                    self.related[v] = True

    def branch(self, f):
        """decide formula f on this path"""
        if type(f) is Mem:
            # the domain may have shrunk since the formula was built
            f = f_mem(f.var, f.set)
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self._apply(d[0])
            return d[1]
        self.stats['branches'] += 1
        if time.time() > self.deadline:
            raise BudgetExceeded()
        nf = f_not(f)
        if type(f) is Mem and f.var.name not in self.related:
            # the variable is only constrained by its own domain: both sides
            # are satisfiable because 0 < |f.set| < |domain|
            return self._push(f, True, nf)
        if not self.check(f_z3(f, self._mem)):
            return self._push(nf, False, None)
        if not self.check(f_z3(nf, self._mem)):
            return self._push(f, True, None)
        return self._push(f, True, nf)

    def _push(self, f, val, alt):
        self.decisions.append((f, val, alt))
        self.pos += 1
        self._apply(f)
        return val

    def backtrack(self):
        """move to the next unexplored path; False when done"""
        while self.decisions:
            f, val, alt = self.decisions.pop()
            if alt is not None:
                self.decisions.append((alt, not val, None))
                return True
        return False

    def model_values(self, extra=None):
        if not self.check(*([extra] if extra is not None else [])):
            raise RuntimeError("infeasible path %r" % ([(type(d[0]).__name__, getattr(getattr(d[0], "var", None), "name", None), sorted(getattr(d[0], "set", []))[:5]) for d in self.decisions],))
        m = self.solver.model()
        out = {}
        for name, v in self.vars.items():
            val = m.eval(v.v, model_completion=True).as_long()
            out[name] = val if val < v.n else 0
        return out

    # ---- spec primitives
    def note(self, label, value):
        pass

    def assume(self, cond):
        if isinstance(cond, SymBool):
            if not self.branch(cond.e):
                raise PathAbort()
        elif not cond:
            raise PathAbort()

    def require(self, cond, msg):
        """assertion: must hold for every value on this path"""
        self.stats['asserts'] += 1
        key = msg if isinstance(msg, str) else '%s:%d' % (msg.__qualname__.split('.')[0], msg.__code__.co_firstlineno)
        self.reached[key] = self.reached.get(key, 0) + 1
        e = to_expr(cond)
        if e is TRUE:
            return
        ne = f_z3(f_not(e), self._mem)
        if self.check(ne):
            raise Violation(msg if isinstance(msg, str) else str(msg()), self.model_values(ne))

    def explore(self, fn):
        """run fn(self) over all paths; returns list of Violation (first only)"""
        prev = Ctx.cur
        Ctx.cur = self
        violations = []
        try:
            while True:
                self.pos = 0
                self.dom = dict((k, frozenset([v])) for k, v in self.fixed.items())
                self.related = {}
                try:
                    fn(self)
                    self.stats['paths'] += 1
                    n = self.stats['paths']
                    if n & (n - 1) == 0 or n % 997 == 0:
                        self.path_models.append(self.model_values())
                except PathAbort:
                    self.stats['aborted'] += 1
                except Violation as v:
                    self.stats['paths'] += 1
                    violations.append(v)
                    break
                except BudgetExceeded:
                    self.stats['complete'] = False
                    break
                if self.stats['paths'] + self.stats['aborted'] >= self.max_paths or time.time() > self.deadline:
                    self.stats['complete'] = not self.backtrack()
                    break
                if not self.backtrack():
                    break
        finally:
            Ctx.cur = prev
        return violations


class Var(object):
    def __init__(self, name, n):
        self.name, self.n = name, n
        self.v = z3.BitVec(name, max(1, (n - 1).bit_length()))
        self.full = frozenset(range(n))
        self.groups = {}
        self.strs = {}

    def among(self, idxs):
        """formula: value in idxs"""
        return f_mem(self, frozenset(idxs))

    def pick(self, table):
        """python value table[var], forking once per distinct value"""
        try:
            key = tuple(table)
            g = self.groups.get(key)
        except TypeError:
            key = g = None
        if g is None or not all(a is b for a, b in zip(g[0], key)):
            g = self._groups(table)
            if key is not None:
                self.groups[key] = (key, g[0], g[1])
        else:
            g = g[1:]
        order, sets = g
        for t, st in zip(order[:-1], sets):
            if Ctx.cur.branch(f_mem(self, st)):
                return t
        return order[-1]

    def _groups(self, table):
        groups = {}
        order = []
        for i, t in enumerate(table):
            for k in order:
                if k is t or (type(k) is type(t) and k == t):
                    groups[id(k)].append(i)
                    break
            else:
                order.append(t)
                groups[id(t)] = [i]
        return order, [frozenset(groups[id(t)]) for t in order]

    def int(self, lo=0):
        return SymInt(self, lo)

    def bool(self):
        assert self.n == 2
        return SymBool(self.among([1]))

    def str(self, table):
        """SymStr over table of strings (forks on the length)"""
        key = tuple(table)
        e = self.strs.get(key)
        if e is None:
            e = self.strs[key] = ([len(t) for t in table], {})
        length = self.pick(e[0])
        if length in e[1]:
            return mkstr(e[1][length])
        idx = [i for i, t in enumerate(table) if len(t) == length]
        cs = []
        for p in range(length):
            t = dict((i, table[i][p]) for i in idx)
            vals = set(t.values())
            cs.append(vals.pop() if len(vals) == 1 else Ch(self, t))
        e[1][length] = cs
        return mkstr(cs)


def to_expr(c):
    if isinstance(c, SymBool):
        return c.e
    return TRUE if c else FALSE


def wrapb(f):
    if f is TRUE:
        return True
    if f is FALSE:
        return False
    return SymBool(f)


class SymBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return Ctx.cur.branch(self.e)

    def __eq__(self, o):
        return SymBool(f_iff(self.e, to_expr(o)))

    def __ne__(self, o):
        return SymBool(f_not(f_iff(self.e, to_expr(o))))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return SymBool(f_and([self.e, to_expr(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(f_or([self.e, to_expr(o)]))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(f_not(self.e))

    def __repr__(self):
        return repr(bool(self))


def Not(c):
    return wrapb(f_not(c.e)) if isinstance(c, SymBool) else (not c)


def And(*cs):
    return SymBool(f_and([to_expr(c) for c in cs]))


def Or(*cs):
    return SymBool(f_or([to_expr(c) for c in cs]))


class SymInt(object):
    """var + lo; comparisons with ints are symbolic, everything else concretises"""
    def __init__(self, var, lo=0):
        self.var, self.lo = var, lo

    def _conc(self):
        return self.var.pick([i + self.lo for i in range(self.var.n)])

    def _cmp(self, o, op):
        if isinstance(o, SymInt):
            o = o._conc()
        if not isinstance(o, int):
            return NotImplemented
        return SymBool(self.var.among([i for i in range(self.var.n) if op(i + self.lo, o)]))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __hash__(self): return hash(self._conc())
    def __index__(self): return self._conc()
    __int__ = __index__
    def __bool__(self): return bool(self != 0)
    def __add__(self, o): return self._conc() + o
    def __radd__(self, o): return o + self._conc()
    def __sub__(self, o): return self._conc() - o
    def __and__(self, o): return self._conc() & o
    def __rand__(self, o): return self._conc() & o
    def __or__(self, o): return self._conc() | o
    def __mul__(self, o): return self._conc() * o
    def __repr__(self): return repr(self._conc())


class Ch(object):
    """one symbolic character: finite function of a Var (partial tables: other
    indices were excluded by a fork on the length)"""
    __slots__ = ('var', 'table', 'inv', 'memo')

    def __init__(self, var, table):
        self.var, self.table = var, table
        inv = {}
        for i, c in table.items():
            inv.setdefault(c, []).append(i)
        self.inv = dict((c, frozenset(l)) for c, l in inv.items())
        self.memo = {}

    def where(self, pred):
        s = self.memo.get(pred)
        if s is None:
            s = frozenset([i for i, c in self.table.items() if pred(c)])
            if type(pred) is not types.FunctionType and type(pred) is not types.BuiltinMethodType:
                self.memo[pred] = s      # method descriptors such as str.isspace
        return f_mem(self.var, s)

    def where_eq(self, c):
        s = self.inv.get(c)
        return f_mem(self.var, s) if s is not None else FALSE

    def where_in(self, cont):
        """cont: str or an immutable-by-convention set of one-character strings"""
        k = id(cont)
        e = self.memo.get(k)
        if e is None or e[0] is not cont or e[1] != len(cont):
            e = self.memo[k] = (cont, len(cont), frozenset([i for c, l in self.inv.items() if c in cont for i in l]))
        return f_mem(self.var, e[2])


def _ch_eq(a, b):
    if isinstance(a, str):
        if isinstance(b, str):
            return f_const(a == b)
        return b.where_eq(a)
    if isinstance(b, str):
        return a.where_eq(b)
    if a.var.name == b.var.name:
        return a.var.among([i for i in a.table if i in b.table and a.table[i] == b.table[i]])
    ors = []
    for c in set(a.table.values()) & set(b.table.values()):
        ors.append(f_and([a.where_eq(c), b.where_eq(c)]))
    return f_or(ors) if ors else FALSE


def mkstr(cs):
    cs = list(cs)
    if all(isinstance(c, str) for c in cs):
        return ''.join(cs)
    s = str.__new__(SymStr, '\ufffd' * len(cs))
    s.cs = cs
    return s


def chars(s):
    return s.cs if isinstance(s, SymStr) else list(s)


def conc(x):
    """concretise by forking"""
    if isinstance(x, SymStr):
        out = []
        for i, c in enumerate(x.cs):
            if isinstance(c, str):
                out.append(c)
            else:
                out.append(_pick_ch(c))
        return ''.join(out)
    if isinstance(x, SymInt):
        return x._conc()
    if isinstance(x, SymBool):
        return bool(x)
    return x


def _pick_ch(c):
    vals = sorted(set(c.table.values()))
    for v in vals[:-1]:
        if Ctx.cur.branch(c.where_eq(v)):
            return v
    return vals[-1]


def _isw(pred):
    def f(self):
        if not self.cs:
            return False
        es = [f_const(pred(c)) if isinstance(c, str) else c.where(pred) for c in self.cs]
        return wrapb(f_and(es))
    return f


def _mapw(fn):
    def f(self):
        out = []
        for c in self.cs:
            if isinstance(c, str):
                out.append(fn(c))
            else:
                t = dict((i, fn(x)) for i, x in c.table.items())
                assert all(len(x) == 1 for x in t.values())
                out.append(Ch(c.var, t))
        return mkstr(out)
    return f


class SymStr(str):
    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        oc = o.cs if type(o) is SymStr else o
        if len(oc) != len(self.cs):
            return False
        for a, b in zip(self.cs, oc):
            if type(a) is str and type(b) is str and a != b:
                return False
        es = [_ch_eq(a, b) for a, b in zip(self.cs, oc)]
        return wrapb(f_and(es)) if es else True

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return Not(r)

    def __hash__(self):
        # identity hash: dictionary/sets are accessed through the hooks, which
        # compare symbolically with every key
        return object.__hash__(self)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) != 0

    def __getitem__(self, i):
        if isinstance(i, SymInt):
            i = i._conc()
        if isinstance(i, slice):
            return mkstr(self.cs[i])
        return mkstr([self.cs[i]])

    def __iter__(self):
        return iter([mkstr([c]) for c in self.cs])

    def __add__(self, o):
        return mkstr(self.cs + chars(o))

    def __radd__(self, o):
        return mkstr(chars(o) + self.cs)

    def __mul__(self, n):
        return mkstr(self.cs * n)

    def _at(self, p, sub):
        return f_and([_ch_eq(a, b) for a, b in zip(self.cs[p:p + len(sub)], chars(sub))] or [TRUE])

    def __contains__(self, sub):
        n = len(sub)
        for p in range(0, len(self.cs) - n + 1):
            if Ctx.cur.branch(self._at(p, sub)):
                return True
        return False

    def startswith(self, pre, *a):
        if a:
            return _sub(self, *a).startswith(pre)
        if isinstance(pre, tuple):
            return any(bool(self.startswith(p)) for p in pre)
        if len(pre) > len(self.cs):
            return False
        return wrapb(self._at(0, pre))

    def endswith(self, suf, *a):
        if a:
            return _sub(self, *a).endswith(suf)
        if isinstance(suf, tuple):
            return any(bool(self.endswith(p)) for p in suf)
        if len(suf) > len(self.cs):
            return False
        return wrapb(self._at(len(self.cs) - len(suf), suf))

    def find(self, sub, start=0, end=None):
        start, end = _bounds(len(self.cs), start, end)
        for p in range(start, end - len(sub) + 1):
            if Ctx.cur.branch(self._at(p, sub)):
                return p
        return -1

    def rfind(self, sub, start=0, end=None):
        start, end = _bounds(len(self.cs), start, end)
        for p in range(end - len(sub), start - 1, -1):
            if Ctx.cur.branch(self._at(p, sub)):
                return p
        return -1

    def index(self, sub, *a):
        p = self.find(sub, *a)
        if p < 0:
            raise ValueError("substring not found")
        return p

    def rindex(self, sub, *a):
        p = self.rfind(sub, *a)
        if p < 0:
            raise ValueError("substring not found")
        return p

    def count(self, sub, start=0, end=None):
        p, end = _bounds(len(self.cs), start, end)
        n = 0
        if not len(sub):
            return max(0, end - p + 1)
        while True:
            p = self.find(sub, p, end)
            if p < 0:
                return n
            n += 1
            p += len(sub)

    def replace(self, old, new, n=-1):
        out, p = [], 0
        if not len(old):
            return conc(self).replace(old, new, n)
        while p < len(self.cs):
            if n != 0 and p + len(old) <= len(self.cs) and Ctx.cur.branch(self._at(p, old)):
                out += chars(new)
                p += len(old)
                n -= 1
            else:
                out.append(self.cs[p])
                p += 1
        return mkstr(out)

    def split(self, sep=None, maxsplit=-1):
        out, cur, p = [], [], 0
        if sep is None:
            for i, c in enumerate(self.cs):
                sp = Ctx.cur.branch(f_const(c.isspace()) if isinstance(c, str) else c.where(str.isspace))
                if sp:
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                        if maxsplit >= 0 and len(out) >= maxsplit:
                            rest = mkstr(self.cs[i:]).lstrip()
                            if len(rest):
                                out.append(rest)
                            return out
                else:
                    cur.append(c)
            if cur:
                out.append(mkstr(cur))
            return out
        if not len(sep):
            raise ValueError("empty separator")
        while p < len(self.cs):
            if (maxsplit < 0 or len(out) < maxsplit) and p + len(sep) <= len(self.cs) \
                    and Ctx.cur.branch(self._at(p, sep)):
                out.append(mkstr(cur))
                cur = []
                p += len(sep)
            else:
                cur.append(self.cs[p])
                p += 1
        out.append(mkstr(cur))
        return out

    def splitlines(self, keepends=False):
        out, cur = [], []
        for c in self.cs:
            nl = Ctx.cur.branch(f_const(c in '\n\r') if isinstance(c, str) else c.where(lambda x: x in '\n\r'))
            if nl:
                if keepends:
                    cur.append(c)
                out.append(mkstr(cur))
                cur = []
            else:
                cur.append(c)
        if cur:
            out.append(mkstr(cur))
        return out

    def partition(self, sep):
        if not len(sep):
            raise ValueError("empty separator")
        p = self.find(sep)
        if p < 0:
            return (self, '', '')
        return (mkstr(self.cs[:p]), sep, mkstr(self.cs[p + len(sep):]))

    def rpartition(self, sep):
        if not len(sep):
            raise ValueError("empty separator")
        p = self.rfind(sep)
        if p < 0:
            return ('', '', self)
        return (mkstr(self.cs[:p]), sep, mkstr(self.cs[p + len(sep):]))

    def _strip(self, chs, left, right):
        cs = list(self.cs)
        def hit(c):
            pred = (lambda x: x.isspace()) if chs is None else (lambda x: x in chs)
            return Ctx.cur.branch(f_const(pred(c)) if isinstance(c, str) else c.where(pred))
        while left and cs and hit(cs[0]):
            cs.pop(0)
        while right and cs and hit(cs[-1]):
            cs.pop()
        return mkstr(cs)

    def strip(self, chs=None): return self._strip(chs, True, True)
    def lstrip(self, chs=None): return self._strip(chs, True, False)
    def rstrip(self, chs=None): return self._strip(chs, False, True)

    def join(self, it):
        return sym_join(self, it)

    isspace = _isw(str.isspace)
    isdigit = _isw(str.isdigit)
    isalpha = _isw(str.isalpha)
    isalnum = _isw(str.isalnum)
    upper = _mapw(str.upper)
    lower = _mapw(str.lower)

    def islower(self):
        if len(self.cs) == 1:
            return _isw(str.islower)(self)
        return conc(self).islower()

    def isupper(self):
        if len(self.cs) == 1:
            return _isw(str.isupper)(self)
        return conc(self).isupper()

    def __lt__(self, o): return _str_cmp(self, o, '__lt__')
    def __le__(self, o): return _str_cmp(self, o, '__le__')
    def __gt__(self, o): return _str_cmp(self, o, '__gt__')
    def __ge__(self, o): return _str_cmp(self, o, '__ge__')

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit >= 0:
            return conc(self).rsplit(sep if sep is None else conc(sep), maxsplit)
        rev = mkstr(self.cs[::-1]).split(mkstr(chars(sep)[::-1]))
        return [mkstr(chars(x)[::-1]) for x in reversed(rev)]

    def removeprefix(self, pre):
        return mkstr(self.cs[len(pre):]) if self.startswith(pre) else self

    def removesuffix(self, suf):
        return mkstr(self.cs[:len(self.cs) - len(suf)]) if len(suf) and self.endswith(suf) else self

    def ljust(self, n, fill=' '):
        return mkstr(self.cs + [fill] * max(0, int(n) - len(self.cs)))

    def rjust(self, n, fill=' '):
        return mkstr([fill] * max(0, int(n) - len(self.cs)) + self.cs)

    def isidentifier(self):
        for i, c in enumerate(self.cs):
            pred = str.isidentifier if i == 0 else (lambda x: ('a' + x).isidentifier())
            if not Ctx.cur.branch(f_const(pred(c)) if isinstance(c, str) else c.where(pred)):
                return False
        return len(self.cs) > 0

    def translate(self, table):
        out = []
        for c in self.cs:
            for k, v in table.items():
                k = chr(k) if isinstance(k, int) else k
                if Ctx.cur.branch(_ch_eq(c, k)):
                    out += [] if v is None else chars(chr(v) if isinstance(v, int) else v)
                    break
            else:
                out.append(c)
        return mkstr(out)

    def __str__(self):
        return self

    def __repr__(self):
        return '<SymStr %d>' % len(self.cs) if Ctx.cur is None else repr(conc(self))

    def __mod__(self, args):
        return conc(self) % args

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _bounds(n, start, end):
    start = 0 if start is None else int(start)
    end = n if end is None else int(end)
    start = max(0, start + n) if start < 0 else start
    end = max(0, end + n) if end < 0 else min(end, n)
    return start, end


class _Nowhere(object):
    "the part of a string between two positions that do not exist"
    def startswith(self, x):
        return False
    endswith = startswith


def _sub(s, start=None, end=None):
    start, end = _bounds(len(s.cs), start, end)
    return mkstr(s.cs[start:end]) if start <= end else _Nowhere()


def _str_cmp(a, b, op):
    if not isinstance(b, str):
        return NotImplemented
    ac, bc = chars(a), chars(b)
    for x, y in zip(ac, bc):
        if isinstance(x, str) and isinstance(y, str):
            if x != y:
                return getattr(x, op)(y)
        elif isinstance(x, str) or isinstance(y, str):
            if Ctx.cur.branch(_ch_eq(x, y)):
                continue
            if isinstance(y, str):
                return wrapb(x.where(lambda v: getattr(v, op)(y)))
            return wrapb(y.where(lambda v: getattr(x, op)(v)))
        else:
            return getattr(conc(a), op)(conc(b))
    return getattr(len(ac), op)(len(bc))


_fallback = set(n for n in dir(str) if not n.startswith('__') and n not in SymStr.__dict__)


def _mk_fallback(name):
    def f(self, *a, **k):
        return getattr(conc(self), name)(*[conc(x) for x in a], **k)
    f.__name__ = name
    return f


for _n in _fallback:
    setattr(SymStr, _n, _mk_fallback(_n))


def sym_join(sep, it):
    out = []
    first = True
    for x in it:
        if not isinstance(x, str):
            raise TypeError("sequence item: expected str instance")
        if not first:
            out += chars(sep)
        out += chars(x)
        first = False
    return mkstr(out)


def sym_format(fmt, args):
    """fmt % args where an argument may be symbolic (fmt literal)"""
    fmt = conc(fmt)
    if isinstance(args, dict):
        getter = None
    else:
        argl = list(args) if isinstance(args, tuple) else [args]
        getter = iter(argl)
    out = []
    p = 0
    import re
    rx = re.compile(r'%(\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<w>\*|\d+)?(\.(?P<p>\d+))?(?P<c>[a-zA-Z%])')
    while p < len(fmt):
        q = fmt.find('%', p)
        if q < 0:
            out += list(fmt[p:])
            break
        out += list(fmt[p:q])
        m = rx.match(fmt, q)
        if m is None:
            raise ValueError("bad format")
        p = m.end()
        if m.group('c') == '%':
            out.append('%')
            continue
        if m.group('key') is not None:
            a = h_getitem(args, m.group('key'))
        else:
            try:
                a = next(getter)
            except StopIteration:
                raise TypeError("not enough arguments for format string")
        c = m.group('c')
        if c == 's':
            a = a if isinstance(a, str) else str(conc(a) if isinstance(a, (SymInt, SymBool)) else a)
            if m.group('w') or m.group('flags'):
                a = ('%' + m.group('flags') + (m.group('w') or '') + 's') % conc(a)
            out += chars(a)
        else:
            spec = '%' + m.group('flags') + (m.group('w') or '') + ('.' + m.group('p') if m.group('p') else '') + c
            a = conc_deep(a)
            out += list(spec % (a,))
    if getter is not None and isinstance(args, tuple):
        for _ in getter:
            raise TypeError("not all arguments converted during string formatting")
    return mkstr(out)


def is_sym(x):
    return isinstance(x, (SymStr, SymInt, SymBool))


def has_sym(x, depth=2):
    if is_sym(x):
        return True
    if depth and type(x) in (list, tuple, set, frozenset):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and type(x) in (dict,):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def conc_deep(x):
    if is_sym(x):
        return conc(x)
    if type(x) is list:
        return [conc_deep(y) for y in x]
    if type(x) is tuple:
        return tuple(conc_deep(y) for y in x)
    if type(x) is dict:
        return dict((conc_deep(k), conc_deep(v)) for k, v in x.items())
    return x


# ------------------------------------------------------------------ hooks

def _find_key(d, k):
    """the key of mapping/set d equal to k, forking on symbolic equalities"""
    for key in list(d):
        if key is k:
            return key
    if is_sym(k) or any(is_sym(x) or (isinstance(x, tuple) and has_sym(x)) for x in d) or \
            (isinstance(k, tuple) and has_sym(k)):
        for key in list(d):
            try:
                r = _eq_deep(key, k)
            except TypeError:
                continue
            if r:
                return key
        return _MISSING
    for key in (d if not isinstance(d, (dict, set, frozenset)) else ()):
        if key == k:
            return key
    try:
        if k in d:
            return k
    except TypeError:
        raise
    return _MISSING


def _eq_deep(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return all(bool(_eq_deep(x, y)) for x, y in zip(a, b))
    return bool(a == b)


_MISSING = object()


_plain_cache = {}


def _plain(c):
    """container without symbolic members (cached for the module-level constant sets)"""
    k = id(c)
    e = _plain_cache.get(k)
    if e is not None and e[0] is c and e[1] == len(c):
        return e[2]
    r = not any(isinstance(k, (SymStr, tuple)) for k in c)
    if type(c) in (frozenset, set):
        _plain_cache[k] = (c, len(c), r)
    return r


def h_in(x, c):
    tx, tc = type(x), type(c)
    if tc is str:
        if tx is not SymStr:
            return x in c
        if len(x.cs) == 1:
            ch = x.cs[0]
            return wrapb(ch.where_in(c))
        n = len(x)
        return wrapb(f_or([to_expr(x.__eq__(c[p:p + n])) for p in range(0, len(c) - n + 1)]))
    if tc is SymStr:
        return c.__contains__(x)
    if tx is SymStr:
        if tc in (dict, set, frozenset, list, tuple) and _plain(c):
            if len(x.cs) == 1 and tc in (set, frozenset):
                return wrapb(x.cs[0].where_in(c))
            return wrapb(f_or([to_expr(x.__eq__(k)) for k in c if isinstance(k, str) and len(k) == len(x)]))
        if isinstance(c, (dict, set, frozenset)):
            return _find_key(c, x) is not _MISSING
        return x in c
    if isinstance(c, (dict, set, frozenset)):
        if tx is str and tc in (set, frozenset) and _plain(c):
            return x in c
        if is_sym(x) or has_sym(x) or any(is_sym(k) or isinstance(k, tuple) for k in c):
            return _find_key(c, x) is not _MISSING
    return x in c


def h_notin(x, c):
    return Not(h_in(x, c))


def _is_map(d):
    return isinstance(d, dict)


def _dict_touch(d, k):
    return is_sym(k) or (isinstance(k, tuple) and has_sym(k)) or any(is_sym(x) or (type(x) is tuple and has_sym(x)) for x in d)


def h_getitem(d, k):
    if _is_map(d) and _dict_touch(d, k):
        key = _find_key(d, k)
        if key is _MISSING:
            if hasattr(type(d), '__missing__'):
                return d.__missing__(k)
            raise KeyError(k)
        return dict.__getitem__(d, key) if type(d) is dict else d[key]
    if isinstance(k, SymInt) and isinstance(d, (list, tuple, str)):
        k = conc(k)
    return d[k]


def h_setitem(d, k, v):
    if _is_map(d) and _dict_touch(d, k):
        key = _find_key(d, k)
        d[k if key is _MISSING else key] = v
        return
    if isinstance(k, SymInt):
        k = conc(k)
    d[k] = v


def h_delitem(d, k):
    if _is_map(d) and _dict_touch(d, k):
        key = _find_key(d, k)
        if key is _MISSING:
            raise KeyError(k)
        del d[key]
        return
    if isinstance(k, SymInt):
        k = conc(k)
    del d[k]


def h_mod(a, b):
    if isinstance(a, str) and (has_sym(b) or is_sym(a) or _deep_obj(b)):
        return sym_format(a, b)
    return a % b


def _deep_obj(b):
    # objects whose __str__ may produce a symbolic string
    items = b if isinstance(b, tuple) else (b.values() if isinstance(b, dict) else (b,))
    return any(not isinstance(x, (str, int, float, bool, type(None))) for x in items)


def h_add(a, b):
    if isinstance(a, str) and isinstance(b, str) and (is_sym(a) or is_sym(b)):
        return mkstr(chars(a) + chars(b))
    return a + b


def h_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == 114:
                v = repr(conc_deep(v))
            elif conv == 115 or isinstance(v, str):
                v = v if isinstance(v, str) else str(v)
            if spec:
                v = format(conc_deep(v), spec)
            elif not isinstance(v, str):
                v = str(conc(v) if is_sym(v) else v)
            out += chars(v)
        else:
            out += list(p)
    return mkstr(out)


_PASS = set([isinstance, issubclass, id, type, callable, hasattr, getattr, setattr, iter, next,
             bool, list, tuple, enumerate, zip, reversed, range, super, any, all, map, filter, min, max, print, sum])


# ------------------------------------------------------------ regular expressions
# Backtracking matcher over the parsed pattern; every test of a character forks.

class SymMatch(object):
    def __init__(self, rx, s, spans):
        self.re, self.string, self.spans = rx, s, spans

    def _i(self, g):
        return self.re.groupindex[g] if isinstance(g, str) else g

    def span(self, g=0):
        return self.spans.get(self._i(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _get(self, g, default=None):
        i = self._i(g)
        if i > self.re.groups:
            raise IndexError("no such group")
        a, b = self.span(i)
        return default if a < 0 else self.string[a:b]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._get(g) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((k, self._get(k, default)) for k in self.re.groupindex)

    def expand(self, template):
        return _rx_expand(self, conc(template))


def _rx_category(cat):
    import re._constants as K
    return {K.CATEGORY_DIGIT: str.isdigit, K.CATEGORY_NOT_DIGIT: lambda c: not c.isdigit(),
            K.CATEGORY_SPACE: str.isspace, K.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
            K.CATEGORY_WORD: lambda c: c.isalnum() or c == '_', K.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == '_')}[cat]


def _rx_set(items):
    import re._constants as K
    neg = False
    tests = []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            tests.append(lambda c, v=chr(av): c == v)
        elif op is K.RANGE:
            tests.append(lambda c, a=av[0], b=av[1]: a <= ord(c) <= b)
        elif op is K.CATEGORY:
            tests.append(_rx_category(av))
        else:
            raise NotImplementedError('regex set %s' % op)
    return lambda c: any(t(c) for t in tests) != neg


def _rx_test(cs, i, pred):
    if i >= len(cs):
        return False
    c = cs[i]
    return pred(c) if isinstance(c, str) else Ctx.cur.branch(c.where(pred))


def _rx_m(nodes, k, cs, i, groups, cont):
    """match nodes[k:] at i, then cont(i, groups); returns cont's result or None"""
    import re._constants as K
    if k == len(nodes):
        return cont(i, groups)
    op, av = nodes[k]
    rest = lambda j, g: _rx_m(nodes, k + 1, cs, j, g, cont)
    if op is K.LITERAL:
        return rest(i + 1, groups) if _rx_test(cs, i, chr(av).__eq__) else None
    if op is K.NOT_LITERAL:
        return rest(i + 1, groups) if _rx_test(cs, i, chr(av).__ne__) else None
    if op is K.ANY:
        return rest(i + 1, groups) if _rx_test(cs, i, '\n'.__ne__) else None
    if op is K.IN:
        return rest(i + 1, groups) if _rx_test(cs, i, _rx_set(av)) else None
    if op is K.SUBPATTERN:
        g, add, sub, p = av
        if add or sub:
            raise NotImplementedError('regex flags')

        def done(j, gr):
            if g is not None:
                gr = dict(gr)
                gr[g] = (i, j)
            return rest(j, gr)
        return _rx_m(list(p), 0, cs, i, groups, done)
    if op is K.BRANCH:
        for alt in av[1]:
            r = _rx_m(list(alt), 0, cs, i, groups, rest)
            if r is not None:
                return r
        return None
    if op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, p = av
        p = list(p)

        def more(n, j, gr):
            def again(j2, gr2):
                if j2 == j and n >= lo:
                    return None
                return more(n + 1, j2, gr2)
            if n < lo:
                return _rx_m(p, 0, cs, j, gr, again)
            if op is K.MIN_REPEAT:
                r = rest(j, gr)
                if r is not None or n >= hi:
                    return r
                return _rx_m(p, 0, cs, j, gr, again)
            if n < hi:
                r = _rx_m(p, 0, cs, j, gr, again)
                if r is not None:
                    return r
            return rest(j, gr)
        return more(0, i, groups)
    if op is K.AT:
        if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            ok = i == 0
        elif av is K.AT_END_STRING:
            ok = i == len(cs)
        elif av is K.AT_END:
            ok = i == len(cs) or i == len(cs) - 1 and _rx_test(cs, i, '\n'.__eq__)
        elif av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            w = lambda c: c.isalnum() or c == '_'
            ok = ((i > 0 and _rx_test(cs, i - 1, w)) != _rx_test(cs, i, w)) == (av is K.AT_BOUNDARY)
        else:
            raise NotImplementedError('regex at %s' % av)
        return rest(i, groups) if ok else None
    if op in (K.ASSERT, K.ASSERT_NOT):
        d, p = av
        if d != 1:
            raise NotImplementedError('regex lookbehind')
        r = _rx_m(list(p), 0, cs, i, groups, lambda j, gr: gr)
        if op is K.ASSERT_NOT:
            return rest(i, groups) if r is None else None
        return rest(i, r) if r is not None else None
    if op is K.GROUPREF:
        a, b = groups.get(av, (-1, -1))
        if a < 0:
            return None
        for x in range(a, b):
            if i + x - a >= len(cs) or not Ctx.cur.branch(_ch_eq(cs[x], cs[i + x - a])):
                return None
        return rest(i + b - a, groups)
    raise NotImplementedError('regex %s' % op)


_rx_parsed = {}


def _rx_expand(m, template):
    import re
    out, p = '', 0
    for t in re.finditer(r'\\(?:(\d)|g<(\w+)>|(.))', template, re.S):
        out = out + template[p:t.start()]
        if t.group(3) is not None:
            if t.group(3) not in '\\n':
                raise NotImplementedError('regex replacement template')
            out = out + {'\\': '\\', 'n': '\n'}[t.group(3)]
        else:
            g = t.group(1) or t.group(2)
            v = m.group(int(g) if g.isdigit() else g)
            out = mkstr(chars(out) + chars(v if v is not None else ''))
        p = t.end()
    return mkstr(chars(out) + chars(template[p:]))


def rx_call(rx, name, s, *args):
    import re
    if rx.flags & ~re.UNICODE or name not in ('match', 'fullmatch', 'search', 'sub', 'split', 'findall', 'finditer'):
        return getattr(rx, name)(conc_deep(s), *args)
    if rx not in _rx_parsed:
        import re._parser
        _rx_parsed[rx] = list(re._parser.parse(rx.pattern))
    nodes = _rx_parsed[rx]

    def at(cs, i, full=False):
        def end(j, g):
            if full and j != len(cs):
                return None
            g = dict(g)
            g[0] = (i, j)
            return g
        return _rx_m(nodes, 0, cs, i, {}, end)
    if name in ('sub', 'split'):
        repl = s
        if name == 'sub':
            s, args = args[0], args[1:]
    cs = chars(s)
    if name in ('match', 'fullmatch'):
        g = at(cs, min(max(int(args[0]), 0), len(cs)) if args else 0, name == 'fullmatch')
        return None if g is None else SymMatch(rx, s, g)

    def hits():
        i = min(max(int(args[0]), 0), len(cs)) if args and name in ('search', 'findall', 'finditer') else 0
        while i <= len(cs):
            g = at(cs, i)
            if g is None:
                i += 1
                continue
            yield SymMatch(rx, s, g)
            i = g[0][1] if g[0][1] > i else i + 1
    if name == 'search':
        for m in hits():
            return m
        return None
    if name in ('findall', 'finditer'):
        ms = list(hits())
        return iter(ms) if name == 'finditer' else [m.group() if not rx.groups else m.groups('')[0] if rx.groups == 1 else m.groups('') for m in ms]
    limit = int(args[0]) if args else 0
    out, p, n = [], 0, 0
    for m in hits():
        if limit and n >= limit:
            break
        n += 1
        out.append(mkstr(cs[p:m.start()]))
        if name == 'sub':
            t = repl(m) if callable(repl) else repl
            if not callable(repl) and '\\' in conc(repl):
                t = _rx_expand(m, conc(repl))
            out.append(t)
        else:
            out += list(m.groups())
        p = m.end()
    out.append(mkstr(cs[p:]))
    return sym_join('', out) if name == 'sub' else out


def h_call(f, *args, **kw):
    tf = type(f)
    if tf is types.FunctionType or tf is types.MethodType:
        if f.__module__ == 're' and (has_sym(args) or has_sym(kw)):
            import re
            if kw:
                return f(*conc_deep(args), **conc_deep(kw))
            if len(args) > 2 + (f.__name__ == 'sub') and f.__name__ != 'sub':
                return f(*conc_deep(args))          # flags
            if len(args) > 1 and f.__name__ in ('match', 'search', 'fullmatch', 'sub', 'split', 'findall', 'finditer'):
                return rx_call(re.compile(conc(args[0])), f.__name__, *args[1:])
            return f(*[conc_deep(a) for a in args])
        return f(*args, **kw)
    if f is len or f is isinstance:
        return f(*args)
    if tf is types.BuiltinMethodType or tf is types.MethodWrapperType or tf is _RxMethod:
        self_ = getattr(f, '__self__', None)
        name = f.__name__
        if isinstance(self_, str) and not isinstance(self_, SymStr):
            if name == 'join' and len(args) == 1:
                items = list(args[0])
                if any(is_sym(i) for i in items):
                    return sym_join(self_, items)
                return self_.join(items)
            if name == 'format':
                if has_sym(args) or has_sym(kw):
                    return _sym_strformat(self_, args, kw)
                return f(*args, **kw)
            if has_sym(args):
                if name in ('find', 'rfind', 'index', 'startswith', 'endswith', 'replace', 'split', 'count', 'partition'):
                    s = str.__new__(SymStr, self_)
                    s.cs = list(self_)
                    return getattr(SymStr, name)(s, *args, **kw)
                return f(*[conc_deep(a) for a in args], **kw)
            return f(*args, **kw)
        if isinstance(self_, _Pattern):
            if has_sym(args):
                if kw:
                    return f(*conc_deep(args), **conc_deep(kw))
                return rx_call(self_, name, *args)
            return f(*args, **kw)
        if isinstance(self_, dict):
            if name == 'get' and _dict_touch(self_, args[0]):
                key = _find_key(self_, args[0])
                return (args[1] if len(args) > 1 else None) if key is _MISSING else self_[key]
            if name == 'setdefault' and _dict_touch(self_, args[0]):
                key = _find_key(self_, args[0])
                if key is _MISSING:
                    self_[args[0]] = args[1] if len(args) > 1 else None
                    key = args[0]
                return self_[key]
            if name == 'pop' and _dict_touch(self_, args[0]):
                key = _find_key(self_, args[0])
                if key is _MISSING:
                    if len(args) > 1:
                        return args[1]
                    raise KeyError(args[0])
                return self_.pop(key)
            if name == 'update' and args and _is_map(args[0]):
                for k, v in list(args[0].items()):
                    h_setitem(self_, k, v)
                for k, v in kw.items():
                    h_setitem(self_, k, v)
                return None
            return f(*args, **kw)
        if isinstance(self_, set):
            if name == 'add':
                if _dict_touch(self_, args[0]):
                    if _find_key(self_, args[0]) is not _MISSING:
                        return None
                return f(*args)
            if name in ('remove', 'discard') and _dict_touch(self_, args[0]):
                key = _find_key(self_, args[0])
                if key is _MISSING:
                    if name == 'remove':
                        raise KeyError(args[0])
                    return None
                return f(key)
            if name in ('update', 'difference_update', 'intersection', 'union', 'difference') and (has_sym(self_) or has_sym(args)):
                return f(*[conc_deep(list(a)) for a in args])
            return f(*args, **kw)
        if isinstance(self_, list) or isinstance(self_, types.GeneratorType):
            return f(*args, **kw)
        if isinstance(self_, types.ModuleType) or self_ is None:
            if f in _PASS:
                return f(*args, **kw)
            if f is builtins.len or f is builtins.repr or f is builtins.hash:
                return f(*args, **kw)
            if f is builtins.sorted:
                return f(*args, **kw)
            if f is builtins.ord and isinstance(args[0], SymStr):
                return ord(conc(args[0]))
            if has_sym(args) or has_sym(kw):
                return f(*[conc_deep(a) for a in args], **dict((k, conc_deep(v)) for k, v in kw.items()))
            return f(*args, **kw)
        if has_sym(args):
            return f(*[conc_deep(a) for a in args], **kw)
        return f(*args, **kw)
    if tf is type and f in (set, frozenset, dict):
        if f is dict:
            d = {}
            if args:
                src = args[0]
                for k, v in (list(src.items()) if isinstance(src, dict) else list(src)):
                    h_setitem(d, k, v)
            for k, v in kw.items():
                h_setitem(d, k, v)
            return d
        s = set()
        if args:
            for x in args[0]:
                if not (_dict_touch(s, x) and _find_key(s, x) is not _MISSING):
                    s.add(x)
        return frozenset(s) if f is frozenset else s
    if f is str and len(args) == 1 and not kw:
        return args[0] if isinstance(args[0], SymStr) else str(conc(args[0]) if is_sym(args[0]) else args[0])
    if f is int and args and is_sym(args[0]):
        return int(conc(args[0]), *args[1:])
    return f(*args, **kw)


def _sym_strformat(fmt, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out += list(lit)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            v, _ = string.Formatter().get_field(field, conc_deep(args), conc_deep(kw))
        if conv == 'r':
            v = repr(conc_deep(v))
        if spec:
            v = format(conc_deep(v), spec)
        if not isinstance(v, str):
            v = str(conc(v) if is_sym(v) else v)
        out += chars(v)
    return mkstr(out)


# ------------------------------------------------------------ AST rewriting

class _Rewriter(ast.NodeTransformer):
    def _h(self, name, args, node, keywords=()):
        return ast.copy_location(
            ast.Call(func=ast.Name(id='__ps_' + name + '__', ctx=ast.Load()), args=args, keywords=list(keywords)), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            nm = 'in' if isinstance(node.ops[0], ast.In) else 'notin'
            return self._h(nm, [node.left, node.comparators[0]], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._h('mod', [node.left, node.right], node)
        if isinstance(node.op, ast.Add):
            return self._h('add', [node.left, node.right], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return self._h('getitem', [node.value, node.slice], node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(value=self._h('setitem', [t.value, t.slice, node.value], node)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(value=self._h('delitem', [t.value, t.slice], node)), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec if v.format_spec is not None else ast.Constant(value='')
                parts.append(ast.copy_location(ast.Tuple(
                    elts=[v.value, ast.Constant(value=v.conversion), spec], ctx=ast.Load()), node))
        return self._h('fstr', parts, node)

    def visit_Call(self, node):
        # keep zero-argument super() and locals()-style introspection intact
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals', 'vars', 'eval', 'exec', '__import__'):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return self._h('call', [node.func] + node.args, node, node.keywords)


def rewrite(source, filename):
    tree = ast.parse(source, filename)
    tree = _Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


HOOKS = {'__ps_in__': h_in, '__ps_notin__': h_notin, '__ps_mod__': h_mod, '__ps_add__': h_add,
         '__ps_getitem__': h_getitem, '__ps_setitem__': h_setitem, '__ps_delitem__': h_delitem,
         '__ps_fstr__': h_fstr, '__ps_call__': h_call}


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, prefixes):
        self.prefixes = prefixes
        self.loaded = []

    def find_spec(self, fullname, path, target=None):
        if not any(fullname == p or fullname.startswith(p + '.') for p in self.prefixes):
            return None
        root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness') \
            if fullname.startswith('vh_') else REPO
        base = os.path.join(root, *fullname.split('.'))
        if os.path.isdir(base):
            fn = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(fullname, fn, loader=self, submodule_search_locations=[base])
        fn = base + '.py'
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(fullname, fn, loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn) as f:
            src = f.read()
        self.loaded.append(fn)
        module.__dict__.update(HOOKS)
        module.__file__ = fn
        exec(rewrite(src, fn), module.__dict__)


finder = None


def install(prefixes=('pybindgen', 'vh_types')):
    global finder
    if finder is None:
        sys.dont_write_bytecode = True
        finder = _Finder(prefixes)
        sys.meta_path.insert(0, finder)
    return finder


def instrument_file(path, name):
    """load one of /verif's own oracle modules with the same rewriting"""
    if os.path.dirname(path) not in sys.path:
        sys.path.append(os.path.dirname(path))      # plain helpers of the harness
    m = types.ModuleType(name)
    m.__dict__.update(HOOKS)
    m.__file__ = path
    sys.modules[name] = m
    with open(path) as f:
        exec(rewrite(f.read(), path), m.__dict__)
    return m
