"""Silver AST double -> the JSON form that spec/Silver.tla executes.

A purely structural transcription: no meaning is computed here.  Statements are
flattened into instruction lists (Silver's structured control flow and gotos
become program-counter targets), expressions become uniform records
{k: kind, a: children, n: name/literal, p: source line, ...}.
"""
import os

BIN = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Mod': 'mod', 'LtCmp': 'lt', 'LeCmp': 'le',
       'GtCmp': 'gt', 'GeCmp': 'ge', 'EqCmp': 'eq', 'NeCmp': 'ne', 'And': 'and', 'Or': 'or', 'Implies': 'imp',
       'PermLtCmp': 'plt', 'PermLeCmp': 'ple', 'PermGtCmp': 'pgt', 'PermGeCmp': 'pge', 'PermAdd': 'padd',
       'PermSub': 'psub', 'PermMul': 'pmul', 'IntPermMul': 'ipmul', 'PermDiv': 'pdiv', 'FractionalPerm': 'frac',
       'PermPermDiv': 'ppdiv', 'SeqAppend': 'sapp', 'SeqContains': 'sin', 'AnySetUnion': 'union',
       'AnySetIntersection': 'inter', 'AnySetMinus': 'minus', 'AnySetSubset': 'subset', 'AnySetContains': 'setin',
       'MapContains': 'min', 'MagicWand': 'wand'}
SKIP_SPEC = ('DecreasesTuple', 'DecreasesWildcard', 'DecreasesStar')
MAXI = 2 ** 30


class Unsupported(Exception):
    pass


def opt(p):
    if hasattr(p, 'isDefined'):
        from fakejvm import silver
        return p.get() if p.isDefined() else silver.FullPerm()
    return p


def flatten_and(e):
    if e.kind == 'And':
        return flatten_and(e._left) + flatten_and(e._right)
    return [e]


class Ser:
    def __init__(self, prog, path=None):
        self.prog, self.path = prog, os.path.basename(path) if path else None
        self.strs = {}
        self.src = open(path).read() if path and os.path.exists(path) else ''

    def line(self, n):
        p = n._pos
        try:
            f = p._file
        except AttributeError:
            return 0
        if self.path and f is not None and os.path.basename(str(f)) != self.path:
            return 0
        return p.line()

    # ---------------------------------------------------------- expressions
    def ex(self, e):
        k = e.kind
        p = self.line(e)

        def r(kind, *ch, **kw):
            ch = list(ch)
            d = dict(k=kind, a=ch, n=kw.pop('n', ''), p=p)
            d['imp'] = kw.pop('imp', any(c.get('imp') for c in ch))
            d['res'] = kw.pop('res', any(c.get('res') for c in ch))
            d['pq'] = kind in ('permf', 'permp', 'forperm') or any(c.get('pq') for c in ch)
            d.update(kw)
            return d
        X = self.ex
        if k in BIN:
            a, b = e.FIELDS
            l, rr = X(getattr(e, '_' + a)), X(getattr(e, '_' + b))
            kind = BIN[k]
            if kind == 'setin' and str(e._s.typ()).startswith('Multiset'):
                kind = 'msnum'
            if kind in ('union', 'inter', 'minus', 'subset') and str(e._left.typ()).startswith('Multiset'):
                kind = 'ms' + kind
            return r(kind, l, rr)
        if k == 'IntLit':
            v = int(e._i.v if hasattr(e._i, 'v') else e._i)
            if abs(v) >= MAXI:
                return r('big', n=str(v))
            return r('int', n=v)
        if k == 'TrueLit':
            return r('true')
        if k == 'FalseLit':
            return r('false')
        if k == 'NullLit':
            return r('null')
        if k == 'LocalVar':
            return r('var', n=str(e._name))
        if k == 'Result':
            return r('var', n='$res', res=True)
        if k == 'Not':
            return r('not', X(e._exp))
        if k == 'Minus':
            return r('neg', X(e._exp))
        if k == 'PermMinus':
            return r('pneg', X(e._exp))
        if k == 'CondExp':
            return r('cond', X(e._cond), X(e._thn), X(e._els))
        if k == 'FieldAccess':
            return r('fld', X(e._rcv), n=str(e._field._name))
        if k == 'FieldAccessPredicate':
            return r('acc', X(e._loc._rcv), X(opt(e._permExp)), n=str(e._loc._field._name), imp=True)
        if k == 'PredicateAccessPredicate':
            loc = e._loc
            return r('pacc', X(opt(e._permExp)), *[X(a) for a in loc._args.items], n=str(loc._predicateName), imp=True)
        if k == 'CurrentPerm':
            loc = e._res
            if loc.kind == 'FieldAccess':
                return r('permf', X(loc._rcv), n=str(loc._field._name))
            return r('permp', *[X(a) for a in loc._args.items], n=str(loc._predicateName))
        if k == 'FuncApp':
            return r('app', *[X(a) for a in e._args.items], n=str(e._funcname))
        if k == 'DomainFuncApp':
            return r('dom', *[X(a) for a in e._args.items], n=str(e._funcname))
        if k == 'Old':
            return r('old', X(e._exp))
        if k == 'LabelledOld':
            return r('lold', X(e._exp), n=str(e._oldLabel))
        if k == 'InhaleExhaleExp':
            return r('ie', X(getattr(e, '_in')), X(e._ex))
        if k == 'Unfolding':
            return r('unfolding', X(e._acc), X(e._body), imp=False)
        if k == 'Asserting':
            return r('asserting', X(e._a), X(e._body), imp=False)
        if k == 'Let':
            return r('let', X(e._exp), X(e._body), n=str(e._variable._name))
        if k in ('Forall', 'Exists'):
            return r('all' if k == 'Forall' else 'ex', X(e._exp),
                     vs=[dict(n=str(v._name), t=str(v._typ)) for v in e._variables.items])
        if k == 'ForPerm':
            loc = e._resource
            args = [loc._rcv] if loc.kind == 'FieldAccess' else list(loc._args.items)
            if any(a.kind != 'LocalVar' for a in args):
                bound = {str(v._name) for v in e._variables.items}
            nm = str(loc._field._name) if loc.kind == 'FieldAccess' else str(loc._predicateName)
            return r('forperm', X(e._body), *[X(a) for a in args], n=nm,
                     vs=[dict(n=str(v._name), t=str(v._typ)) for v in e._variables.items])
        if k == 'FullPerm':
            return r('full')
        if k == 'NoPerm':
            return r('noperm')
        if k == 'WildcardPerm':
            return r('wild')
        if k == 'EpsilonPerm':
            return r('wild')
        if k in ('EmptySeq', 'EmptySet', 'EmptyMultiset', 'EmptyMap'):
            return r({'EmptySeq': 'seq', 'EmptySet': 'set', 'EmptyMultiset': 'mset', 'EmptyMap': 'map'}[k])
        if k in ('ExplicitSeq', 'ExplicitSet', 'ExplicitMultiset'):
            return r({'ExplicitSeq': 'seq', 'ExplicitSet': 'set', 'ExplicitMultiset': 'mset'}[k],
                     *[X(x) for x in e._elems.items])
        if k == 'ExplicitMap':
            ch = []
            for m in e._elems.items:
                ch += [X(m._key), X(m._value)]
            return r('map', *ch)
        if k == 'RangeSeq':
            return r('range', X(e._low), X(e._high))
        if k == 'SeqIndex':
            return r('idx', X(e._s), X(e._idx))
        if k == 'SeqTake':
            return r('take', X(e._s), X(e._n))
        if k == 'SeqDrop':
            return r('drop', X(e._s), X(e._n))
        if k == 'SeqUpdate':
            return r('upd', X(e._s), X(e._idx), X(e._elem))
        if k == 'SeqLength':
            return r('len', X(e._s))
        if k == 'AnySetCardinality':
            return r('card', X(e._s))
        if k == 'MapLookup':
            return r('mget', X(e._base), X(e._key))
        if k == 'MapUpdate':
            return r('mupd', X(e._base), X(e._key), X(e._value))
        if k == 'MapCardinality':
            return r('mcard', X(e._base))
        if k == 'MapDomain':
            return r('mdom', X(e._base))
        if k == 'MapRange':
            return r('mran', X(e._base))
        if k == 'PredicateInstance':
            return r('pinst', *[X(a) for a in e._args.items], n=str(e._p))
        if k == 'SIFLowExp':
            return r('low', X(e._exp))
        if k in ('SIFLowEventExp', 'SIFLowExitExp'):
            return r('low')
        return r('unsup', n=k)

    def exs(self, es):
        out = []
        for e in es:
            if e.kind in SKIP_SPEC:
                continue
            out += [self.ex(c) for c in flatten_and(e) if c.kind not in SKIP_SPEC]
        return out

    # ----------------------------------------------------------- statements
    def method(self, m):
        d = dict(name=str(m._name), args=[str(a._name) for a in m._formalArgs.items],
                 argt=[str(a._typ) for a in m._formalArgs.items],
                 rets=[str(a._name) for a in m._formalReturns.items],
                 rett=[str(a._typ) for a in m._formalReturns.items],
                 pres=self.exs(m._pres.items), posts=self.exs(m._posts.items), p=self.line(m))
        body = m._body
        if not body.isDefined():
            d.update(hasbody=False, code=[], locals=[])
            return d
        # a builtin whose body is `inhale/assume false` is given by its contract
        ss = [s for s in self.stmts(body.get())]
        if len(ss) == 2 and ss[0].kind == 'Inhale' and 'typeof(' in str(ss[0]._exp):
            del ss[0]                # the class of the receiver
        if len(ss) == 1 and ss[0].kind in ('Inhale', 'Assume') and ss[0]._exp.kind == 'FalseLit':
            d.update(hasbody=False, code=[], locals=[])
            return d
        self.code, self.labels, self.fix, self.locals = [], {}, [], []
        self.depth = 0
        self.stmt(body.get())
        for i, name, dep in self.fix:
            if name not in self.labels:
                raise Unsupported('goto unknown label %s' % name)
        self.depths()
        # variables only ever set to null: a loop iteration starts with an arbitrary value of them
        other = set(d['rets'])
        for c in self.code:
            if c['o'] == 'call':
                other |= set(c['ts'])
            elif c['o'] == 'new' or c['o'] == 'asg' and c['e']['k'] != 'null':
                other.add(c['x'])
        hav = sorted(set(self.locals) - other)
        for c in self.code:
            if c['o'] in ('le', 'lb'):
                c['hav'] = hav
        d.update(hasbody=True, code=self.code, locals=self.locals)
        return d

    def depths(self):
        """resolve the gotos and give each the number of loops its target stands in.

        Handlers and finally blocks stand at the end of the method but belong to the loop
        they jump back into: entering them does not leave that loop.
        """
        n = len(self.code)
        at, cur, exits, opened = [], 0, {}, []
        for i, c in enumerate(self.code):
            at.append(cur)
            if c['o'] == 'le':
                opened.append(i)
                cur += 1
            elif c['o'] == 'lx':
                exits[opened.pop()] = i + 1
                cur -= 1
        at.append(0)
        goto = {i: name for i, name, _ in self.fix}
        starts = sorted(t - 1 for t, ld in self.labels.values() if ld == 0)

        def reach(i):
            """labels reached from code index i by jumps outside of loops begun there"""
            seen, work, res = set(), [i], set()
            while work:
                k = work.pop()
                if k in seen or k >= n or at[k] > 0:
                    continue
                seen.add(k)
                c = self.code[k]
                if k in goto:
                    res.add(goto[k])
                elif c['o'] == 'le':
                    work.append(exits[k])
                elif c['o'] == 'goto':
                    work.append(c['t'] - 1)
                else:
                    if c['o'] == 'cj':
                        work.append(c['t'] - 1)
                    work.append(k + 1)
            return res
        into = {s: reach(s) for s in starts}
        base = {s: 0 for s in starts}

        def true(name):
            t, ld = self.labels[name]
            own = [s for s in starts if s <= t - 1]
            return ld + (base[own[-1]] if own else 0)
        for _ in range(len(starts) + 2):
            new = {s: max([true(x) for x in into[s]], default=0) for s in starts}
            if new == base:
                break
            base = new
        else:
            raise Unsupported('jumps into loops')
        for i, name, _ in self.fix:
            self.code[i]['t'] = self.labels[name][0]
            self.code[i]['ld'] = true(name)

    def stmts(self, s):
        if s.kind == 'Seqn':
            for x in s._ss.items:
                yield from self.stmts(x)
        else:
            yield s

    def emit(self, o, s, **kw):
        d = dict(o=o, p=self.line(s) if s is not None else 0)
        d.update(kw)
        self.code.append(d)
        return len(self.code)

    def stmt(self, s):
        k = s.kind
        if k == 'Seqn':
            for d in s._scopedSeqnDeclarations.items:
                if d.kind == 'LocalVarDecl':
                    self.locals.append(str(d._name))
            for x in s._ss.items:
                self.stmt(x)
        elif k == 'LocalVarDeclStmt':
            self.locals.append(str(s._decl._name))
        elif k == 'LocalVarAssign':
            self.emit('asg', s, x=str(s._lhs._name), e=self.ex(s._rhs))
        elif k == 'FieldAssign':
            self.emit('fas', s, r=self.ex(s._lhs._rcv), f=str(s._lhs._field._name), e=self.ex(s._rhs))
        elif k == 'NewStmt':
            self.emit('new', s, x=str(s._lhs._name), fs=[str(f._name) for f in s._fields.items])
        elif k in ('Inhale', 'Assume'):
            self.emit('inh', s, es=self.exs([s._exp]))
        elif k == 'Exhale':
            self.emit('exh', s, es=self.exs([s._exp]))
        elif k == 'Assert':
            self.emit('ast', s, es=self.exs([s._exp]))
        elif k == 'Refute':
            pass
        elif k == 'Fold':
            self.emit('fold', s, e=self.ex(s._acc))
        elif k == 'Unfold':
            self.emit('unf', s, e=self.ex(s._acc))
        elif k == 'MethodCall':
            self.emit('call', s, m=str(s._methodName), a=[self.ex(a) for a in s._args.items],
                      ts=[str(t._name) for t in s._targets.items])
        elif k == 'Label':
            self.labels[str(s._name)] = (len(self.code) + 1, self.depth)
            self.emit('lab', s, n=str(s._name))
        elif k == 'Goto':
            i = self.emit('goto', s)
            self.fix.append((i - 1, str(s._target), self.depth))
        elif k == 'If':
            i = self.emit('cj', s, e=self.ex(s._cond))
            self.stmt(s._thn)
            j = self.emit('goto', None)
            self.code[i - 1]['t'] = len(self.code) + 1
            self.stmt(s._els)
            self.code[j - 1]['t'] = len(self.code) + 1
            self.code[j - 1]['ld'] = -1
        elif k == 'While':
            invs = self.exs(s._invs.items)
            self.emit('le', s, es=invs)
            self.depth += 1
            i = self.emit('cj', s, e=self.ex(s._cond))
            self.stmt(s._body)
            self.emit('lb', s, es=invs, t=i)
            self.depth -= 1
            self.code[i - 1]['t'] = len(self.code) + 1
            self.emit('lx', s)
        else:
            raise Unsupported('statement ' + k)

    # -------------------------------------------------------------- program
    def program(self):
        pr = self.prog
        funcs, meths, preds = {}, {}, {}
        for f in pr._functions.items:
            b = f._body
            funcs[str(f._name)] = dict(
                args=[str(a._name) for a in f._formalArgs.items], argt=[str(a._typ) for a in f._formalArgs.items],
                ret=str(f._typ), seq=str(f._typ).startswith('Seq'), pres=self.exs(f._pres.items),
                posts=[e for e in self.exs(f._posts.items) if not refers(e, str(f._name))],
                hasbody=b.isDefined(), body=self.ex(b.get()) if b.isDefined() else dict(k='true', a=[], n='', p=0, imp=False, res=False, pq=False),
                user=self.line(f) > 0, p=self.line(f))
        for p in pr._predicates.items:
            b = p._body
            preds[str(p._name)] = dict(args=[str(a._name) for a in p._formalArgs.items],
                                       hasbody=b.isDefined(), body=self.exs([b.get()]) if b.isDefined() else [])
        skipped = {}
        for m in pr._methods.items:
            try:
                meths[str(m._name)] = self.method(m)
            except Unsupported as u:
                skipped[str(m._name)] = str(u)
        self.dispatch(meths)
        ext = self.extends()
        uniq = {}
        for d in pr._domains.items:
            for f in d._functions.items:
                uniq[str(f._name)] = dict(n=len(f._formalArgs.items), t=str(f._typ), d=str(d._name))
        for tbl in (funcs, meths, preds):
            if not tbl:
                tbl['$none'] = dict(args=[], argt=[], rets=[], rett=[], pres=[], posts=[], hasbody=False, body=[],
                                    code=[], locals=[], user=False, p=0, ret='', name='$none')
        return dict(funcs=funcs, meths=meths, preds=preds, ext=ext, doms=uniq or {'$none': dict(n=0, t='', d='')},
                    fields=[str(f._name) for f in pr._fields.items], skipped=skipped)

    def dispatch(self, meths):
        """which method runs for a receiver of a subclass: the one the program verifies for that class.

        A method begins by assuming the exact class of its receiver; T_m_inherit_check verifies an
        inherited body for T, T_m_override_check the overriding method against the overridden contract.
        Each becomes a stub at the end of the method's code; calls of super() or C.m(..) never dispatch.
        """
        none = dict(k='null', a=[], n='', p=0, imp=False, res=False, pq=False)
        static = static_lines(self.src)
        for name, d in list(meths.items()):
            d['disp'], d['dexp'] = {'$none': 0}, none
            for c in d['code']:
                if c['o'] == 'call':
                    c['st'] = c['p'] in static
                if c['o'] == 'inh':
                    c['exact'] = False
        for name, d in list(meths.items()):
            c = d['code'][0] if d['code'] else None
            if c is None or c['o'] != 'inh' or len(c['es']) != 1:
                continue
            e = c['es'][0]
            if e['k'] != 'eq' or e['a'][0]['k'] != 'dom' or e['a'][0]['n'] != 'typeof' or e['a'][1]['k'] != 'dom' \
                    or e['a'][0]['a'][0]['k'] != 'var':
                continue
            K = e['a'][1]['n']
            c['exact'] = True
            d['dexp'] = e['a'][0]
            if not name.startswith(K + '_'):
                continue
            suffix = name[len(K):]
            stop = dict(o='goto', p=0, t=0, ld=-1)
            old = len(d['code']) + 1
            for kind in ('_inherit_check', '_override_check'):
                for o in list(meths):
                    if o.endswith(suffix + kind) and meths[o]['hasbody']:
                        T = o[:-len(suffix + kind)]
                        if T in d['disp'] or T == K or len(meths[o]['args']) != len(d['args']):
                            continue
                        d['code'] = d['code'] + [stop]
                        d['disp'][T] = len(d['code']) + 1
                        args = [dict(none, k='var', n=a) for a in d['args']]
                        d['code'] = d['code'] + [dict(o='call', p=0, m=o, a=args, ts=d['rets'][:len(meths[o]['rets'])], st=True)]
            stop['t'] = len(d['code']) + 1
            if stop['t'] != old:      # jumps to the end of the body leave the method, not into the stubs
                for c in d['code']:
                    if c['o'] in ('goto', 'br') and c.get('t') == old:
                        c['t'] = stop['t']

    def extends(self):
        """direct superclass facts: extends_(c(..), d(..)) conjuncts of the type axioms."""
        out = []
        for d in self.prog._domains.items:
            if str(d._name) != 'PyType':
                continue
            for ax in d._axioms.items:
                e = ax._exp
                vs = []
                if e.kind == 'Forall':
                    vs = [str(v._name) for v in e._variables.items]
                    e = e._exp
                for c in flatten_and(e):
                    if c.kind == 'DomainFuncApp' and str(c._funcname) == 'extends_':
                        sub, sup = [self.ex(a) for a in c._args.items]
                        out.append(dict(c=sub['n'], ps=[x['n'] for x in sub['a']], sup=sup))
        return out


def refers(e, fn):
    """result == fn(..) in the contract of fn itself determines nothing."""
    return e['k'] == 'eq' and any(x['k'] == 'app' and x['n'] == fn for x in e['a'])


def static_lines(src):
    """lines with a call of a method of a named class or of super()."""
    import ast
    try:
        t = ast.parse(src)
    except SyntaxError:
        return set()
    classes = {n.name for n in ast.walk(t) if isinstance(n, ast.ClassDef)}
    out = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            v = n.func.value
            if isinstance(v, ast.Name) and v.id in classes or \
                    isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                out.add(n.lineno)
    return out


def serialize(prog, path=None):
    return Ser(prog, path).program()


def serialize_contracts(prog):
    """functions and the contracts of methods only."""
    s = Ser(prog, None)
    whole = s.method

    def contract(m):
        try:
            d = whole(m)
        except Unsupported:
            d = None
        if d is None or d['hasbody']:
            d = dict(name=str(m._name), args=[str(a._name) for a in m._formalArgs.items],
                     argt=[str(a._typ) for a in m._formalArgs.items], rets=[str(a._name) for a in m._formalReturns.items],
                     rett=[str(a._typ) for a in m._formalReturns.items], pres=s.exs(m._pres.items), posts=s.exs(m._posts.items),
                     p=0, hasbody=False, code=[], locals=[])
        return d
    s.method = contract
    return s.program()
