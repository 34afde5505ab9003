"""What a program in the supported subset does, according to CPython.

Contracts become executable checks; the outcome of a call is the returned value,
the exception that leaves the function, or the first violated check/illegal
operation with its line.  A line carrying the comment `#! <kind>` is one where
the program lacks a right (permission, definedness, ...) CPython knows nothing
about; executing it is a violation.
"""
import ast
import typing
import builtins
import collections
import copy
import enum
import itertools
import re
import sys

QLO, QHI = -2, 9
BUILTIN_ERRORS = (IndexError, KeyError, ZeroDivisionError, AttributeError, TypeError, UnboundLocalError, NameError,
                  ValueError, AssertionError, RecursionError)


class Viol(BaseException):
    def __init__(self, kind, l1=(), l2=()):
        self.kind, self.l1, self.l2 = kind, sorted(set(l1)), sorted(set(l2))


class Infeasible(BaseException):
    pass


class PSeq:
    def __init__(self, *a):
        self.l = list(a)

    __class_getitem__ = classmethod(lambda cls, x: cls)
    __len__ = lambda s: len(s.l)
    __iter__ = lambda s: iter(s.l)
    __contains__ = lambda s, x: x in s.l
    __add__ = lambda s, o: type(s)(*(s.l + o.l))
    __eq__ = lambda s, o: isinstance(o, PSeq) and s.l == o.l
    __hash__ = lambda s: hash(tuple(s.l))

    def __getitem__(self, i):
        return self.l[i]

    def take(self, n):
        return type(self)(*(self.l[:max(n, 0)]))

    def drop(self, n):
        return type(self)(*(self.l[max(n, 0):]))

    def update(self, i, v):
        if i < 0 or i >= len(self.l):
            raise IndexError
        l = list(self.l)
        l[i] = v
        return type(self)(*l)


class PByteSeq(PSeq):
    pass


class PSet:
    __class_getitem__ = classmethod(lambda cls, x: cls)

    def __init__(self, *a):
        self.s = frozenset(a)

    __len__ = lambda s: len(s.s)
    __iter__ = lambda s: iter(s.s)
    __contains__ = lambda s, x: x in s.s
    __add__ = lambda s, o: PSet(*(s.s | o.s))
    __sub__ = lambda s, o: PSet(*(s.s - o.s))
    __eq__ = lambda s, o: isinstance(o, PSet) and s.s == o.s
    __hash__ = lambda s: hash(s.s)


class PMultiset:
    __class_getitem__ = classmethod(lambda cls, x: cls)

    def __init__(self, *a):
        self.c = collections.Counter(a)

    __len__ = lambda s: sum(s.c.values())
    __add__ = lambda s, o: PMultiset(*(s.c + o.c).elements())
    __sub__ = lambda s, o: PMultiset(*(s.c - o.c).elements())
    __eq__ = lambda s, o: isinstance(o, PMultiset) and s.c == o.c
    __hash__ = None

    def num(self, x):
        return self.c[x]


class Runtime:
    """Names available to the instrumented program."""

    def __init__(self):
        self.first = None
        self.depth = 0

    def viol(self, kind, l1=(), l2=()):
        v = Viol(kind, l1, l2)
        if self.first is None:
            self.first = v
        raise v

    def expect(self, kind, lines):
        self.viol(kind, lines, lines)

    def call_line(self, skip):
        f = sys._getframe(skip)
        while f is not None and f.f_code.co_filename != '<prog>':
            f = f.f_back
        return f.f_lineno if f else 0

    def universe(self, dom):
        if dom is int:
            return list(range(QLO, QHI + 1))
        if dom is bool:
            return [False, True]
        if dom is object:
            return list(range(QLO, QHI + 1)) + [True, False, None]
        if isinstance(dom, type):
            return []
        return list(dom)


def _lam(p, *a):
    r = p(*a)
    return r[0] if isinstance(r, tuple) else r


PERMS = {'Acc', 'Rd', 'Wildcard', 'list_pred', 'set_pred', 'dict_pred', 'bytearray_pred', 'MayCreate', 'MaySet',
         'MustTerminate', 'MustRelease', 'MustInvoke', 'Decreases', 'Low', 'LowVal', 'LowEvent',
         'LowExit', 'TerminatesSif', 'MayStart', 'Joinable', 'MarkGhost', 'Refute'}


def namespace(rt):
    ns = {'zz_rt': rt, '__name__': '__main__', 'PSeq': PSeq, 'PSet': PSet, 'PMultiset': PMultiset,
          'PByteSeq': PByteSeq, 'GInt': int, 'GBool': bool, 'GStr': str}
    for p in PERMS:
        ns[p] = lambda *a, **k: True

    def forall(dom, p):
        return all(_lam(p, x) for x in rt.universe(dom))

    def exists(dom, p):
        return any(_lam(p, x) for x in rt.universe(dom))
    ns['Forall'], ns['Exists'] = forall, exists

    def foralln(*a):
        *ds, p = a
        return all(_lam(p, *x) for x in itertools.product(*[rt.universe(d) for d in ds]))
    for n in '23456':
        ns['Forall' + n] = foralln
    ns['ToSeq'] = lambda x: PSeq(*x)
    ns['ToByteSeq'] = lambda x: PByteSeq(*x)
    ns['ToMS'] = lambda x: PMultiset(*x)
    ns['Let'] = lambda e1, t, e2: e2(e1)
    ns['Reveal'] = lambda x: x
    ns['Unfolding'] = lambda p, e: e
    ns['Fold'] = lambda p: None
    ns['Unfold'] = lambda p: None
    ns['Declassify'] = lambda e: None
    ns['PRE'] = None
    ns['Lock'] = Lock
    ident = lambda f=None, *a: f
    for d in ('Pure', 'Opaque', 'Predicate', 'Inline', 'Ghost', 'ContractOnly', 'AllLow', 'PreservesLow'):
        ns[d] = ident
    import typing
    for t in ('List', 'Tuple', 'Dict', 'Set', 'Optional', 'Union', 'Sequence', 'Callable', 'Any', 'Iterator', 'Type',
              'TypeVar', 'Generic', 'cast', 'NamedTuple', 'Sized', 'Iterable', 'FrozenSet'):
        if hasattr(typing, t):
            ns[t] = getattr(typing, t)
    import dataclasses
    import abc
    ns.update(dataclass=dataclasses.dataclass, field=dataclasses.field, dataclasses=dataclasses,
              IntEnum=enum.IntEnum, Enum=enum.Enum, abstractmethod=abc.abstractmethod, ABC=abc.ABC,
              ABCMeta=abc.ABCMeta, typing=typing)
    # the order of locks is not modelled: every lock is above the wait level (marks say where it is not)
    ns.update(WaitLevel=lambda: 0, Level=lambda l: 1)
    return ns


class Lock(typing.Generic[typing.TypeVar('T')]):
    def __init__(self, locked=None, above=None, below=None):
        pass

    def acquire(self):
        pass

    release = acquire


CONTRACTS = {'Requires', 'Ensures', 'Exsures', 'Invariant', 'Decreases'}


def cname(s):
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name):
        return s.value.func.id
    return None


def parse(src):
    """Synthesised statements; they take the location of the node they end up in."""
    t = ast.parse(src)
    for n in ast.walk(t):
        for a in ('lineno', 'col_offset', 'end_lineno', 'end_col_offset'):
            if hasattr(n, a):
                delattr(n, a)
    return t.body


class Instr(ast.NodeTransformer):
    """Rewrites contract constructs into calls of the runtime."""

    def __init__(self, marks, overrides=None):
        self.marks = marks
        self.overrides = overrides or {}    # line of an overriding method -> the overridden one
        self.n = 0
        self.olds = [None]     # per function: list of (name, expr)
        self.fn = [None]

    def name(self, p):
        self.n += 1
        return 'zz_%s%d' % (p, self.n)

    def visit_ImportFrom(self, n):
        if n.module and (n.module.startswith('nagini_contracts') or n.module in ('typing', 'dataclasses', 'enum', 'abc')):
            return None
        return n

    def visit_Import(self, n):
        return n

    def visit_Call(self, n):
        nm = n.func.id if isinstance(n.func, ast.Name) else None
        if nm == 'Implies':
            a, b = [self.visit(x) for x in n.args]
            return ast.copy_location(ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), a), b]), n)
        if nm == 'Old':
            e = self.visit(n.args[0])
            if self.olds[-1] is None:
                return e
            v = self.name('old')
            self.olds[-1].append((v, e))
            return ast.copy_location(ast.Subscript(ast.Name('zz_olds', ast.Load()), ast.Constant(v), ast.Load()), n)
        if nm in ('Result', 'ResultT'):
            return ast.copy_location(ast.Name('zz_result', ast.Load()), n)
        if nm == 'RaisedException':
            return ast.copy_location(ast.Name('zz_exc', ast.Load()), n)
        if nm == 'Previous':
            return ast.copy_location(ast.Call(ast.Name('PSeq', ast.Load()), [
                ast.Starred(ast.Name('zz_prev_' + n.args[0].id, ast.Load()), ast.Load())], []), n)
        if nm and nm.rstrip('23456') in ('Forall', 'Exists') and isinstance(n.args[-1], ast.Lambda):
            lam = n.args[-1]
            if isinstance(lam.body, ast.Tuple) and len(lam.body.elts) == 2:
                lam.body = lam.body.elts[0]        # triggers are not evaluated
        if nm in PERMS:
            # the location need not be readable in Python
            return ast.copy_location(ast.Constant(True), n)
        return self.generic_visit(n)

    def chk(self, kind, cond, l1, l2):
        """if not (cond): zz_rt.viol(...)"""
        t = parse('if not zz_c:\n    zz_rt.viol(%r, %s, %r)' % (kind, l1, list(l2)))[0]
        t.test = ast.UnaryOp(ast.Not(), cond)
        return t

    def lines(self, n):
        return range(n.lineno, n.end_lineno + 1)

    def split(self, e):
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
            return [x for v in e.values for x in self.split(v)]
        return [e]

    def body(self, stmts):
        out = []
        for s in stmts:
            if s.lineno in self.marks and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                out += parse('zz_rt.expect(%r, %r)' % self.marks[s.lineno])
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def visit_Expr(self, s):
        nm = cname(s)
        if nm in ('Assert', 'Assume'):
            e = s.value.args[0]
            res = []
            for c in self.split(e):
                ln = list(self.lines(s))
                if nm == 'Assume':
                    t = parse('if not zz_c:\n    raise zz_Infeasible()')[0]
                    t.test = ast.UnaryOp(ast.Not(), self.visit(c))
                    res.append(t)
                else:
                    res.append(self.chk('assert', self.visit(c), ln, ln))
            return res
        if nm == 'Fold':
            p = self.visit(s.value.args[0])
            ln = list(self.lines(s))
            return [self.chk('fold', p, ln, [])]
        if nm in ('Unfold', 'Decreases', 'Invariant', 'Refute', 'MarkGhost', 'Declassify'):
            return None
        return self.generic_visit(s)

    def visit_Assert(self, s):
        ln = list(self.lines(s))
        return self.chk('assert', self.visit(s.test), ln, ln)

    def visit_If(self, s):
        s.test = self.visit(s.test)
        s.body = self.body(s.body)
        s.orelse = self.body(s.orelse) if s.orelse else []
        return s

    def visit_With(self, s):
        s.items = [self.visit(i) for i in s.items]
        s.body = self.body(s.body)
        return s

    def visit_Try(self, s):
        s.body = self.body(s.body)
        for h in s.handlers:
            h.body = self.body(h.body)
        s.orelse = self.body(s.orelse) if s.orelse else []
        s.finalbody = self.body(s.finalbody) if s.finalbody else []
        return s

    def visit_Match(self, s):
        s.subject = self.visit(s.subject)
        for c in s.cases:
            if c.guard:
                c.guard = self.visit(c.guard)
            c.body = self.body(c.body)
        return s

    def invs(self, s):
        cs = []
        for x in s.body:
            if cname(x) == 'Invariant':
                for c in self.split(x.value.args[0]):
                    cs.append((list(self.lines(x)), self.visit(c)))
        return cs

    def inv_fn(self, cs, s, prev=None):
        f = self.name('inv')
        d = parse('def %s(%s):\n    return True' % (f, ('zz_prev_' + prev) if prev else ''))[0]
        d.body = [self.chk('inv', c, [], ln) for ln, c in cs] + d.body
        return f, d

    def visit_While(self, s):
        cs = self.invs(s)
        test = self.visit(s.test)
        s.body = self.body(s.body)
        s.orelse = self.body(s.orelse) if s.orelse else []
        if cs:
            f, d = self.inv_fn(cs, s)
            s.test = ast.BoolOp(ast.And(), [parse('%s()' % f)[0].value, test])
            return [d, s]
        s.test = test
        return s

    def visit_For(self, s):
        cs = self.invs(s)
        s.iter = self.visit(s.iter)
        tgt = s.target.id if isinstance(s.target, ast.Name) else '_t'
        s.body = self.body(s.body)
        s.orelse = self.body(s.orelse) if s.orelse else []
        if not cs:
            return s
        # the variable already holds the next element when the invariant is checked
        f, d = self.inv_fn(cs, s, tgt)
        it = self.name('it')
        pv = 'zz_prev_' + tgt
        res = [d] + parse('%s = list(0)\n%s = 0\n%s = []' % (it, it + 'i', pv))
        res[1].value.args = [s.iter]
        loop = parse('while True:\n    if %si < len(%s):\n        pass\n    %s(%s)\n    if %si >= len(%s):\n        break\n    %si += 1\n    %s = %s[:%si]' % (
            it, it, f, pv, it, it, it, pv + '_', it, it))[0]
        asg = ast.Assign([s.target], parse('%s[%si]' % (it, it))[0].value)
        loop.body[0].body = [ast.copy_location(asg, s)]
        # Previous(x): elements of completed iterations
        upd = parse('%s = %s[:%si]' % (pv, it, it))[0]
        loop.body.insert(1, upd)
        if s.orelse:
            flag = self.name('fl')
            res += parse('%s = False' % flag)
            loop.body[3].body.insert(0, parse('%s = True' % flag)[0])
            loop.body += s.body
            tail = ast.If(ast.Name(flag, ast.Load()), s.orelse, [])
            return res + [loop, tail]
        loop.body += s.body
        return res + [loop]

    def visit_Lambda(self, n):
        return self.generic_visit(n)

    def visit_ClassDef(self, n):
        self.olds.append(None)
        n.body = self.body(n.body)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.olds.pop()
        return n

    def visit_FunctionDef(self, n):
        decs = [d.id if isinstance(d, ast.Name) else '' for d in n.decorator_list]
        is_pred = 'Predicate' in decs
        pres, posts, exs, rest = [], [], [], []
        for s in n.body:
            nm = cname(s)
            if nm in ('Requires', 'Ensures', 'Exsures', 'Decreases') and not is_pred:
                if nm == 'Requires':
                    pres.append(s)
                elif nm == 'Ensures':
                    posts.append(s)
                elif nm == 'Exsures':
                    exs.append(s)
                continue
            rest.append(s)
        self.olds.append([])
        self.fn.append(n.name)
        pre_c = [(self.visit(c), list(self.lines(s))) for s in pres for c in self.split(s.value.args[0])]
        post_c = []
        for s in posts:
            e = s.value.args[-1]
            if len(s.value.args) == 2 and isinstance(e, ast.Lambda):
                e = ast.Call(e, [ast.Name('zz_result', ast.Load())], [])
            for c in self.split(e):
                post_c.append((self.visit(c), list(self.lines(s))))
        ex_c = [(s.value.args[0], self.visit(s.value.args[1]), list(self.lines(s))) for s in exs]
        over, over_post = [], []
        base = self.overrides.get(n.lineno)
        if base is not None:        # called through the overridden method, whose contract must be enough and hold
            over += parse('zz_over = True')
            for s in base.body:
                if cname(s) == 'Requires':
                    t = parse('if not zz_c:\n    zz_over = False')[0]
                    t.test = ast.UnaryOp(ast.Not(), self.visit(s.value.args[0]))
                    over.append(t)
                if cname(s) == 'Ensures':
                    for c in self.split(s.value.args[0]):
                        over_post.append((self.visit(c), list(self.lines(s))))
        body = self.body(rest)
        olds = self.olds.pop()
        self.fn.pop()
        gen_globals = [s for s in body if isinstance(s, (ast.Global,))]
        impl = 'zz_impl_' + n.name
        params = n.args
        names = [a.arg for a in params.posonlyargs + params.args + params.kwonlyargs]
        if params.vararg:
            names.append(params.vararg.arg)
        if params.kwarg:
            names.append(params.kwarg.arg)
        lam_args = ', '.join(names)
        new = []
        new += over
        for c, ln in pre_c:
            new.append(self.chk('pre', c, ('[%d] if zz_over else ' % n.lineno if over else '') + '[zz_rt.call_line(2)]', ln))
        new += parse('zz_olds = {}')
        for v, e in olds:
            g = parse('def zz_c_%s():\n    return 0' % v)[0]
            g.body[0].value = e
            t = parse('try:\n    zz_olds[%r] = zz_snap(zz_c_%s())\nexcept Exception:\n    pass' % (v, v))[0]
            new += [g, t]
        f = parse('def %s(%s):\n    pass' % (impl, lam_args))[0]
        f.body = body
        new.append(f)
        # the body sees zz_olds through the closure
        t = parse('try:\n    zz_result = %s(%s)\nexcept Exception as zz_exc:\n    zz_rt.escape(zz_exc, [])\n    raise' % (impl, lam_args))[0]
        arr = []
        for typ, c, ln in ex_c:
            x = parse('if isinstance(zz_exc, 0):\n    pass')[0]
            x.test.args[1] = typ
            x.body = [self.chk('exsures', c, [], ln)]
            arr.append(x)
        esc = t.handlers[0].body[0]
        esc.value.args[1] = ast.List([typ for typ, _, _ in ex_c], ast.Load())
        t.handlers[0].body = [esc] + arr + [t.handlers[0].body[1]]
        new.append(t)
        for c, ln in post_c:
            new.append(self.chk('post', c, [], ln))
        for c, ln in over_post:
            new.append(self.chk('post', c, [], ln))
        new += parse('return zz_result')
        n.body = new
        return n


def _snap(x):
    if isinstance(x, list):
        return list(x)
    if isinstance(x, (set, dict)):
        return x.copy()
    return x


def escape(rt):
    def go(exc, allowed):
        if isinstance(exc, BUILTIN_ERRORS) and type(exc).__module__ == 'builtins':
            tb = exc.__traceback__
            ln = 0
            while tb:
                if tb.tb_frame.f_code.co_filename == '<prog>':
                    ln = tb.tb_lineno
                tb = tb.tb_next
            if rt.first is None:
                rt.first = Viol('runtime:' + type(exc).__name__, [ln], [])
            raise rt.first
        if not any(isinstance(exc, a) for a in allowed):
            tb = exc.__traceback__
            ln = 0
            t = tb.tb_next or tb
            lns = []
            while t:
                if t.tb_frame.f_code.co_filename == '<prog>':
                    lns.append(t.tb_lineno)
                t = t.tb_next
            if rt.first is None:
                rt.first = Viol('exception', [], [])
            raise rt.first
    return go


def show(v):
    if v is None:
        return ['none']
    if isinstance(v, bool):
        return ['bool', v]
    if isinstance(v, enum.IntEnum):
        return ['unknown']
    if isinstance(v, int):
        return ['int', v] if abs(v) < 2 ** 30 else ['unknown']
    if isinstance(v, str):
        return ['str', [ord(c) for c in v]]
    if isinstance(v, tuple):
        return ['tuple', [show(x) for x in v]]
    if isinstance(v, list):
        return ['list', [show(x) for x in v]]
    if isinstance(v, (set, frozenset)):
        return ['set', [show(x) for x in v]]
    if isinstance(v, dict):
        return ['dict', [[show(k), show(x)] for k, x in v.items()]]
    if isinstance(v, PByteSeq):
        return ['unknown']
    if isinstance(v, PSeq):
        return ['pseq', [show(x) for x in v.l]]
    if isinstance(v, (PSet, PMultiset, float, bytes, bytearray, range)):
        return ['unknown']
    return ['obj', type(v).__name__]


MARK = re.compile(r'#!\s*(\S+)')
RUN = re.compile(r'^\s*#\s*run(?:\s+(\w+))?:\s*(.*?)\s*$')


def overrides(tree):
    """line of each overriding method -> copy of the method it overrides; all calls go through the latter's class."""
    classes = {n.name: n for n in tree.body if isinstance(n, ast.ClassDef)}

    def find(c, m):
        while c is not None:
            for f in c.body:
                if isinstance(f, ast.FunctionDef) and f.name == m:
                    return f
            c = up(c)

    def up(c):
        return next((classes[b.id] for b in c.bases if isinstance(b, ast.Name) and b.id in classes), None)
    out = {}
    for c in classes.values():
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.name != '__init__' and up(c) is not None:
                b = find(up(c), f.name)
                if b is not None:
                    out[f.lineno] = copy.deepcopy(b)
    return out


class Program:
    def __init__(self, src):
        self.src = src
        self.marks = {}
        for i, l in enumerate(src.splitlines(), 1):
            m = MARK.search(l)
            if m:
                self.marks[i] = (m.group(1), [i])
        tree = ast.parse(src)
        # `#! kind@def` is reported at the function the line stands in, `#! kind@-2` two lines above
        for i, (k, ls) in list(self.marks.items()):
            r = re.match(r'(.*)@([+-]\d+)$', k)
            if r:
                self.marks[i] = (r.group(1), [i + int(r.group(2))])
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                for i in range(n.lineno, n.end_lineno + 1):
                    if i in self.marks and self.marks[i][0].endswith('@def'):
                        self.marks[i] = (self.marks[i][0][:-4], [n.lineno])
        self.raise_lines = {l for n in ast.walk(tree) if isinstance(n, ast.Raise)
                            for l in range(n.lineno, n.end_lineno + 1)}
        ins = Instr(self.marks, overrides(tree) if '# oracle: overrides' in src else None)
        tree.body = ins.body(tree.body)
        ast.fix_missing_locations(tree)
        self.tree = tree
        self.code = compile(tree, '<prog>', 'exec')

    def fresh(self):
        rt = Runtime()
        rt.escape = escape(rt)
        ns = namespace(rt)
        ns['zz_snap'] = _snap
        ns['zz_Infeasible'] = Infeasible
        ns['zz_raise_lines'] = self.raise_lines
        exec(self.code, ns)
        return rt, ns

    def entries(self):
        """(function, [argument tuples]) from `# run: spec; spec` comments above defs."""
        lines = self.src.splitlines()
        out = []
        for n in ast.walk(ast.parse(self.src)):
            if isinstance(n, ast.FunctionDef):
                i = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 2
                m = RUN.match(lines[i]) if 0 <= i < len(lines) else None
                if m:
                    out.append((n.name, list(itertools.product(*[dom(x) for x in m.group(2).split(';') if x.strip()]))))
        return out

    def run(self, fn, args):
        sys.setrecursionlimit(5000)
        seen = [None]
        rt, ns = self.fresh()
        rt.first = None

        def tracer(frame, ev, arg):
            if frame.f_code.co_filename != '<prog>':
                return None
            if ev == 'exception' and rt.first is None:
                et, val, tb = arg
                if et.__module__ == 'builtins' and issubclass(et, BUILTIN_ERRORS) and frame.f_code.co_name != '<prog>':
                    if tb is not None and tb.tb_next is None and not frame.f_code.co_name.startswith('zz_c'):
                        # raised by an operation of this very frame
                        if not raises_explicitly(frame, ns):
                            rt.first = Viol('runtime:' + et.__name__, [frame.f_lineno], [])
            return tracer
        try:
            sys.settrace(tracer)
            try:
                r = ns[fn](*args)
            finally:
                sys.settrace(None)
            if rt.first is not None:
                raise rt.first
            return ['ret', show(r)]
        except Viol as v:
            v = rt.first or v
            if v.kind == 'pre' and v.l1 == [0]:
                return ['infeasible']          # the caller is to blame
            return ['viol', v.kind, v.l1, v.l2]
        except Infeasible:
            return ['infeasible']
        except Exception as e:
            if rt.first is not None:
                return ['viol', rt.first.kind, rt.first.l1, rt.first.l2]
            return ['raise', type(e).__name__]


_raise_lines = {}


def raises_explicitly(frame, ns):
    return frame.f_lineno in ns['zz_raise_lines']


def dom(s):
    s = s.strip()
    if s == 'bool':
        return [False, True]
    m = re.match(r'^(-?\d+)\.\.(-?\d+)$', s)
    if m:
        return list(range(int(m.group(1)), int(m.group(2)) + 1))
    return [ast.literal_eval(x.strip()) for x in s.split(',')]
