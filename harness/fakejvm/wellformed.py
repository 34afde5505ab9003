"""Well-formedness (closedness, typing) of a Silver double program."""
from . import silver as S

INT2 = {'Add', 'Sub', 'Mul', 'Div', 'Mod', 'LtCmp', 'LeCmp', 'GtCmp', 'GeCmp'}
BOOL2 = {'And', 'Or', 'Implies'}
PERM2 = {'PermAdd', 'PermSub', 'PermMul', 'PermLtCmp', 'PermLeCmp', 'PermGtCmp', 'PermGeCmp', 'PermPermDiv'}


class Checker:
    def __init__(self, prog):
        self.p = prog
        self.msgs = []
        self.owner = ''

    def err(self, clause, msg):
        self.msgs.append('%s: [%s] %s' % (clause, self.owner, msg))

    def run(self):
        p = self.p
        self.fields = {}
        self.funcs = {}
        self.preds = {}
        self.methods = {}
        self.domains = {}
        self.dfuncs = {}
        names = {}

        def reg(table, n, v, kind):
            if n in names:
                self.err('DuplicateName', '%s declared as %s and %s' % (n, names[n], kind))
            names[n] = kind
            table[n] = v
        for f in p._fields:
            reg(self.fields, f._name, f, 'field')
        for f in p._functions:
            reg(self.funcs, f._name, f, 'function')
        for f in p._predicates:
            reg(self.preds, f._name, f, 'predicate')
        for f in p._methods:
            reg(self.methods, f._name, f, 'method')
        for d in p._domains:
            reg(self.domains, d._name, d, 'domain')
            for f in d._functions:
                reg(self.dfuncs, f._name, (f, d), 'domain function')
        for d in p._domains:
            self.owner = 'domain ' + d._name
            tv = {t._name for t in d._typVars}
            seen = set()
            for f in d._functions:
                for a in f._formalArgs:
                    self.type(a._typ, tv)
                self.type(f._typ, tv)
            for a in d._axioms:
                n = a.__dict__.get('_name')
                if n in seen and n:
                    self.err('DuplicateName', 'axiom %s' % n)
                seen.add(n)
                self.exp(a._exp, {}, S.Bool, 'axiom', tv)
        for f in p._functions:
            self.owner = 'function ' + f._name
            env = self.decls(f._formalArgs)
            for x in f._pres:
                self.exp(x, env, S.Bool, 'pre')
            for x in f._posts:
                self.exp(x, env, S.Bool, 'fpost', result=f._typ)
            if isinstance(f._body, S.Some):
                self.exp(f._body.v, env, f._typ, 'fbody')
        for f in p._predicates:
            self.owner = 'predicate ' + f._name
            env = self.decls(f._formalArgs)
            if isinstance(f._body, S.Some):
                self.exp(f._body.v, env, S.Bool, 'pred')
        for m in p._methods:
            self.owner = 'method ' + m._name
            env = self.decls(m._formalArgs)
            for x in m._pres:
                self.exp(x, env, S.Bool, 'pre')
            env2 = dict(env)
            for n, t in self.decls(m._formalReturns).items():
                if n in env2:
                    self.err('DuplicateName', 'parameter/return ' + n)
                env2[n] = t
            for x in m._posts:
                self.exp(x, env2, S.Bool, 'post')
            if isinstance(m._body, S.Some):
                self.labels = {}
                self.gotos = []
                self.usedlabels = []
                self.params = set(env)
                self.stmt(m._body.v, env2, dict(env2))
                for g in self.gotos:
                    if g not in self.labels:
                        self.err('UnknownLabel', 'goto %s' % g)
                for g in self.usedlabels:
                    if g not in self.labels:
                        self.err('UnknownLabel', 'old[%s]' % g)
        return self.msgs

    def decls(self, ds):
        env = {}
        for d in ds:
            if d._name in env:
                self.err('DuplicateName', 'variable %s' % d._name)
            env[d._name] = d._typ
            self.type(d._typ)
        return env

    def type(self, t, tv=()):
        if isinstance(t, S.DomainType):
            if t._n not in self.domains and t._n != 'PredicateInstance':
                self.err('UnknownType', str(t))
            elif t._n != 'PredicateInstance' and len(self.domains[t._n]._typVars) != len(t._p):
                self.err('TypeArity', str(t))
            for a in t.args():
                self.type(a, tv)
        elif isinstance(t, (S.SeqType, S.SetType, S.MultisetType)):
            self.type(t._e, tv)
        elif isinstance(t, S.MapType):
            self.type(t._k, tv)
            self.type(t._v, tv)
        elif isinstance(t, S.TypeVar):
            if t._name not in tv:
                self.err('UnknownType', 'type variable ' + t._name)
        elif not isinstance(t, S.Type):
            self.err('UnknownType', repr(t))

    def stmt(self, s, env, allvars):
        k = s.kind if isinstance(s, S.Node) else None
        if k is None or not isinstance(s, S.Stmt):
            self.err('NotAStatement', repr(s))
            return
        if k == 'Seqn':
            env = dict(env)
            for d in s._scopedSeqnDeclarations:
                if isinstance(d, S.LocalVarDecl):
                    if d._name in env:
                        self.err('DuplicateName', 'local variable %s' % d._name)
                    env[d._name] = d._typ
                    self.type(d._typ)
            for x in s._ss:
                self.stmt(x, env, allvars)
        elif k == 'LocalVarAssign':
            if not isinstance(s._lhs, S.LocalVar):
                self.err('Assign', 'target %s' % s._lhs)
                return
            if s._lhs._name in self.params:
                self.err('AssignToParam', s._lhs._name)
            t = self.exp(s._lhs, env, None, 'stmt')
            self.exp(s._rhs, env, t, 'stmt', pure=True)
        elif k == 'FieldAssign':
            self.exp(s._lhs, env, None, 'stmt')
            self.exp(s._rhs, env, s._lhs.typ(), 'stmt', pure=True)
        elif k in ('Inhale', 'Exhale', 'Assert', 'Assume', 'Refute'):
            self.exp(s._exp, env, S.Bool, 'stmt')
        elif k in ('Fold', 'Unfold'):
            if not isinstance(s._acc, S.PredicateAccessPredicate):
                self.err('FoldTarget', str(s._acc))
            self.exp(s._acc, env, S.Bool, 'stmt')
        elif k == 'MethodCall':
            m = self.methods.get(s._methodName)
            if m is None:
                self.err('UnknownMethod', s._methodName)
                return
            if len(m._formalArgs) != len(s._args):
                self.err('Arity', 'call %s' % s)
            for a, f in zip(s._args, m._formalArgs):
                self.exp(a, env, f._typ, 'stmt', pure=True)
            if len(m._formalReturns) != len(s._targets):
                self.err('Arity', 'targets of call %s' % s)
            for a, f in zip(s._targets, m._formalReturns):
                if not isinstance(a, S.LocalVar):
                    self.err('Assign', 'call target %s' % a)
                elif a._name in self.params:
                    self.err('AssignToParam', a._name)
                self.exp(a, env, f._typ, 'stmt')
            tn = [a._name for a in s._targets if isinstance(a, S.LocalVar)]
            if len(set(tn)) != len(tn):
                self.err('DuplicateTargets', str(s))
        elif k == 'NewStmt':
            self.exp(s._lhs, env, S.Ref, 'stmt')
            for f in s._fields:
                if f._name not in self.fields:
                    self.err('UnknownField', f._name)
        elif k == 'Label':
            if s._name in self.labels:
                self.err('DuplicateLabel', s._name)
            self.labels[s._name] = True
        elif k == 'Goto':
            self.gotos.append(s._target)
        elif k == 'If':
            self.exp(s._cond, env, S.Bool, 'stmt', pure=True)
            self.stmt(s._thn, env, allvars)
            self.stmt(s._els, env, allvars)
        elif k == 'While':
            self.exp(s._cond, env, S.Bool, 'stmt', pure=True)
            for i in s._invs:
                self.exp(i, env, S.Bool, 'inv')
            self.stmt(s._body, env, allvars)
        elif k.startswith('SIF'):
            for c in s.children():
                if isinstance(c, S.Stmt):
                    self.stmt(c, env, allvars)
                elif isinstance(c, S.Exp):
                    self.exp(c, env, None, 'stmt')
        else:
            self.err('UnknownStatement', k)

    def need(self, n, got, want):
        if want is not None and got is not None and got != want:
            self.err('Type', '%s has type %s, expected %s' % (str(n)[:120], got, want))

    def exp(self, n, env, want, where, tv=(), result=None, pure=False):
        def E(x, w=None, en=env, pure=True):
            return self.exp(x, en, w, where, tv, result, pure)
        if not isinstance(n, S.Node):
            self.err('NotAnExpression', repr(n))
            return None
        k = n.kind
        if not isinstance(n, S.Exp):
            self.err('NotAnExpression', k)
            return None
        t = None
        if k in INT2:
            E(n._left, S.Int)
            E(n._right, S.Int)
            t = n.typ()
        elif k == 'Or':
            E(n._left, S.Bool)
            E(n._right, S.Bool)
            t = S.Bool
        elif k == 'And':
            E(n._left, S.Bool, pure=pure)
            E(n._right, S.Bool, pure=pure)
            t = S.Bool
        elif k == 'Implies':
            E(n._left, S.Bool, pure=True)
            E(n._right, S.Bool, pure=pure)
            t = S.Bool
        elif k in ('EqCmp', 'NeCmp'):
            a = E(n._left)
            b = E(n._right)
            if a is not None and b is not None and a != b:
                self.err('Type', 'comparison of %s and %s in %s' % (a, b, str(n)[:160]))
            t = S.Bool
        elif k in PERM2:
            E(n._left, S.Perm)
            E(n._right, S.Perm)
            t = n.typ()
        elif k == 'IntPermMul':
            E(n._left, S.Int)
            E(n._right, S.Perm)
            t = S.Perm
        elif k == 'PermDiv':
            E(n._left, S.Perm)
            E(n._right, S.Int)
            t = S.Perm
        elif k == 'FractionalPerm':
            E(n._left, S.Int)
            E(n._right, S.Int)
            t = S.Perm
        elif k in ('FullPerm', 'NoPerm', 'WildcardPerm'):
            t = S.Perm
        elif k == 'PermMinus':
            t = E(n._exp, S.Perm)
        elif k == 'CurrentPerm':
            E(n._res)
            t = S.Perm
        elif k == 'Not':
            t = E(n._exp, S.Bool)
        elif k == 'Minus':
            t = E(n._exp, S.Int)
        elif k in ('IntLit', 'TrueLit', 'FalseLit', 'NullLit'):
            t = n.typ()
        elif k == 'CondExp':
            E(n._cond, S.Bool)
            a = E(n._thn, pure=pure)
            b = E(n._els, pure=pure)
            if a is not None and b is not None and a != b:
                self.err('Type', 'branches %s / %s in %s' % (a, b, str(n)[:160]))
            t = a
        elif k == 'LocalVar':
            if n._name not in env:
                self.err('UnknownVariable', n._name)
            elif env[n._name] != n._typ:
                self.err('Type', 'variable %s declared %s used as %s' % (n._name, env[n._name], n._typ))
            t = n._typ
        elif k == 'Result':
            if where != 'fpost':
                self.err('ResultOutsidePost', str(n))
            elif result != n._typ:
                self.err('Type', 'result is %s used as %s' % (result, n._typ))
            t = n._typ
        elif k == 'FieldAccess':
            E(n._rcv, S.Ref)
            f = self.fields.get(n._field._name)
            if f is None:
                self.err('UnknownField', n._field._name)
            elif f._typ != n._field._typ:
                self.err('Type', 'field %s' % n._field._name)
            t = n._field._typ
        elif k == 'PredicateAccess':
            p = self.preds.get(n._predicateName)
            if p is None:
                self.err('UnknownPredicate', n._predicateName)
            else:
                if len(p._formalArgs) != len(n._args):
                    self.err('Arity', str(n))
                for a, f in zip(n._args, p._formalArgs):
                    E(a, f._typ)
            t = S.Bool
        elif k in ('FieldAccessPredicate', 'PredicateAccessPredicate'):
            if pure:
                self.err('ImpureExpression', str(n)[:160])
            if where == 'fpost':
                self.err('AccInFunctionPost', str(n))
            E(n._loc)
            if isinstance(n._permExp, S.Some):
                E(n._permExp.v, S.Perm)
            t = S.Bool
        elif k == 'FuncApp':
            f = self.funcs.get(n._funcname)
            if f is None:
                self.err('UnknownFunction', n._funcname)
            else:
                if len(f._formalArgs) != len(n._args):
                    self.err('Arity', '%s' % n)
                for a, d in zip(n._args, f._formalArgs):
                    E(a, d._typ)
                n.__dict__['_decltyp'] = f._typ
            t = n.__dict__.get('_decltyp', n._typ)
        elif k == 'DomainFuncApp':
            fd = self.dfuncs.get(n._funcname)
            if fd is None:
                self.err('UnknownFunction', '%s (domain function)' % n._funcname)
                t = n.typ()
            else:
                f, d = fd
                if len(f._formalArgs) != len(n._args):
                    self.err('Arity', str(n))
                for a, fa in zip(n._args, f._formalArgs):
                    E(a, S.subst(fa._typ, n._typVarMap.d))
                if S.subst(f._typ, n._typVarMap.d) != n.typ():
                    self.err('Type', 'domain function %s returns %s used as %s' % (n._funcname, f._typ, n.typ()))
                t = n.typ()
        elif k == 'Old':
            if where in ('pre', 'pred', 'axiom', 'fbody', 'fpost'):
                self.err('OldInBadPosition', str(n)[:100])
            t = E(n._exp)
        elif k == 'LabelledOld':
            if hasattr(self, 'usedlabels'):
                self.usedlabels.append(n._oldLabel)
            t = E(n._exp)
        elif k == 'InhaleExhaleExp':
            E(n.__dict__['_in'], S.Bool, pure=pure)
            E(n._ex, S.Bool, pure=pure)
            t = S.Bool
        elif k == 'Unfolding':
            E(n._acc, S.Bool, pure=False)
            t = E(n._body, pure=pure)
        elif k == 'Asserting':
            E(n._a, S.Bool, pure=False)
            t = E(n._body)
        elif k == 'Let':
            vt = E(n._exp)
            self.need(n._exp, vt, n._variable._typ)
            en = dict(env)
            en[n._variable._name] = n._variable._typ
            t = E(n._body, None, en, pure=pure)
        elif k in ('Forall', 'Exists', 'ForPerm'):
            en = dict(env)
            for v in n._variables:
                if v._name in env:
                    self.err('DuplicateName', 'quantified variable %s' % v._name)
                en[v._name] = v._typ
                self.type(v._typ, tv)
            if k == 'ForPerm':
                E(n._resource, None, en)
                E(n._body, S.Bool, en)
            else:
                for tr in n._triggers:
                    for x in tr._exps:
                        E(x, None, en)
                E(n._exp, S.Bool, en, pure=pure)
            t = S.Bool
        elif k in ('EmptySeq', 'EmptySet', 'EmptyMultiset'):
            self.type(n._elemTyp, tv)
            t = n.typ()
        elif k == 'EmptyMap':
            t = n.typ()
        elif k in ('ExplicitSeq', 'ExplicitSet', 'ExplicitMultiset'):
            if not len(n._elems):
                self.err('EmptyExplicit', k)
                return None
            et = None
            for x in n._elems:
                t1 = E(x, et)
                et = et or t1
            t = n.typ()
        elif k == 'RangeSeq':
            E(n._low, S.Int)
            E(n._high, S.Int)
            t = n.typ()
        elif k in ('SeqAppend', 'AnySetUnion', 'AnySetIntersection', 'AnySetMinus', 'AnySetSubset'):
            a = E(n._left)
            b = E(n._right)
            if a != b:
                self.err('Type', '%s of %s and %s' % (k, a, b))
            cls = S.SeqType if k == 'SeqAppend' else (S.SetType, S.MultisetType)
            if not isinstance(a, cls):
                self.err('Type', '%s on %s' % (k, a))
            t = S.Bool if k == 'AnySetSubset' else a
        elif k in ('SeqIndex', 'SeqTake', 'SeqDrop', 'SeqUpdate', 'SeqLength', 'SeqContains',
                   'AnySetContains', 'AnySetCardinality'):
            st = E(n._s)
            cls = S.SeqType if k.startswith('Seq') else (S.SetType, S.MultisetType)
            if not isinstance(st, cls):
                self.err('Type', '%s on %s in %s' % (k, st, str(n)[:120]))
                return None
            for f in ('idx', 'n'):
                if '_' + f in n.__dict__:
                    E(n.__dict__['_' + f], S.Int)
            if '_elem' in n.__dict__:
                E(n._elem, st._e)
            t = n.typ()
        elif k in ('MapLookup', 'MapContains', 'MapUpdate', 'MapCardinality', 'MapDomain', 'MapRange'):
            mt = E(n._base)
            if not isinstance(mt, S.MapType):
                self.err('Type', '%s on %s' % (k, mt))
                return None
            if '_key' in n.__dict__:
                E(n._key, mt._k)
            if '_value' in n.__dict__:
                E(n._value, mt._v)
            t = n.typ()
        elif k == 'PredicateInstance':
            p = self.preds.get(n._p)
            if p is None:
                self.err('UnknownPredicate', n._p)
            for x in n._args:
                E(x)
            t = n.typ()
        elif k == 'DecreasesTuple':
            for x in n._tupleExpressions:
                E(x)
            if isinstance(n._condition, S.Some):
                E(n._condition.v, S.Bool)
            t = S.Bool
        elif k in ('DecreasesWildcard', 'DecreasesStar'):
            t = S.Bool
        elif k.startswith('SIF'):
            for c in n.children():
                E(c)
            t = S.Bool
        else:
            self.err('UnknownExpression', k)
        self.need(n, t, want)
        return t


def check(prog):
    return Checker(prog).run()
