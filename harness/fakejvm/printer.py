"""Pretty printer for the Silver double (Silver concrete syntax)."""
from . import silver as S

BIN = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '\\', 'Mod': '%', 'LtCmp': '<', 'LeCmp': '<=',
       'GtCmp': '>', 'GeCmp': '>=', 'EqCmp': '==', 'NeCmp': '!=', 'And': '&&', 'Or': '||',
       'Implies': '==>', 'PermLtCmp': '<', 'PermLeCmp': '<=', 'PermGtCmp': '>', 'PermGeCmp': '>=',
       'PermAdd': '+', 'PermSub': '-', 'PermMul': '*', 'IntPermMul': '*', 'PermDiv': '/',
       'FractionalPerm': '/', 'PermPermDiv': '/', 'SeqAppend': '++', 'AnySetUnion': 'union',
       'AnySetIntersection': 'intersection', 'AnySetMinus': 'setminus', 'AnySetSubset': 'subset',
       'MagicWand': '--*'}


def pl(seq):
    return ', '.join(pretty(x) for x in seq)


def decls(seq):
    return ', '.join('%s: %s' % (d._name, d._typ) for d in seq)


def block(s, ind):
    out = []
    pad = '  ' * ind
    if isinstance(s, S.Seqn):
        for d in s._scopedSeqnDeclarations:
            if isinstance(d, S.LocalVarDecl):
                out.append(pad + 'var %s: %s' % (d._name, d._typ))
        for x in s._ss:
            out.extend(block(x, ind))
        return out
    k = s.kind
    if k == 'If':
        out.append(pad + 'if (%s) {' % pretty(s._cond))
        out += block(s._thn, ind + 1)
        e = block(s._els, ind + 1)
        if e:
            out.append(pad + '} else {')
            out += e
        out.append(pad + '}')
        return out
    if k == 'While':
        out.append(pad + 'while (%s)' % pretty(s._cond))
        for i in s._invs:
            out.append(pad + '  invariant ' + pretty(i))
        out.append(pad + '{')
        out += block(s._body, ind + 1)
        out.append(pad + '}')
        return out
    return [pad + pretty(s)]


def pretty(n):
    if n is None:
        return 'null?'
    if isinstance(n, S.Seq):
        return pl(n)
    if not isinstance(n, S.Node):
        return str(n)
    k = n.kind
    g = lambda f: n.__dict__['_' + f]
    if k in BIN:
        return '(%s %s %s)' % (pretty(n._left), BIN[k], pretty(n._right))
    if k == 'IntLit':
        return str(n._i)
    if k in ('TrueLit', 'FalseLit', 'NullLit'):
        return {'TrueLit': 'true', 'FalseLit': 'false', 'NullLit': 'null'}[k]
    if k in ('FullPerm', 'NoPerm', 'WildcardPerm', 'EpsilonPerm'):
        return {'FullPerm': 'write', 'NoPerm': 'none', 'WildcardPerm': 'wildcard', 'EpsilonPerm': 'epsilon'}[k]
    if k in ('Not',):
        return '!(%s)' % pretty(n._exp)
    if k in ('Minus', 'PermMinus'):
        return '-(%s)' % pretty(n._exp)
    if k == 'CondExp':
        return '(%s ? %s : %s)' % (pretty(n._cond), pretty(n._thn), pretty(n._els))
    if k == 'LocalVar':
        return n._name
    if k == 'Result':
        return 'result'
    if k == 'FieldAccess':
        return '%s.%s' % (pretty(n._rcv), n._field._name)
    if k == 'PredicateAccess':
        return '%s(%s)' % (n._predicateName, pl(n._args))
    if k in ('FieldAccessPredicate', 'PredicateAccessPredicate'):
        p = n._permExp
        p = p.v if isinstance(p, S.Some) else (None if p is S.NONE else p)
        return 'acc(%s%s)' % (pretty(n._loc), '' if p is None else ', ' + pretty(p))
    if k in ('FuncApp', 'DomainFuncApp'):
        return '%s(%s)' % (n._funcname, pl(n._args))
    if k == 'Old':
        return 'old(%s)' % pretty(n._exp)
    if k == 'LabelledOld':
        return 'old[%s](%s)' % (n._oldLabel, pretty(n._exp))
    if k == 'InhaleExhaleExp':
        return '[%s, %s]' % (pretty(g('in')), pretty(n._ex))
    if k == 'Unfolding':
        return '(unfolding %s in %s)' % (pretty(n._acc), pretty(n._body))
    if k == 'Asserting':
        return '(asserting %s in %s)' % (pretty(n._a), pretty(n._body))
    if k == 'Let':
        return '(let %s == (%s) in %s)' % (n._variable._name, pretty(n._exp), pretty(n._body))
    if k in ('Forall', 'Exists'):
        return '(%s %s :: %s %s)' % (k.lower(), decls(n._variables),
                                     ' '.join('{%s}' % pl(t._exps) for t in n._triggers), pretty(n._exp))
    if k == 'ForPerm':
        return '(forperm %s [%s] :: %s)' % (decls(n._variables), pretty(n._resource), pretty(n._body))
    if k == 'CurrentPerm':
        return 'perm(%s)' % pretty(n._res)
    if k == 'Trigger':
        return '{%s}' % pl(n._exps)
    if k in ('EmptySeq', 'EmptySet', 'EmptyMultiset'):
        return '%s[%s]()' % (k[5:], n._elemTyp)
    if k == 'EmptyMap':
        return 'Map[%s,%s]()' % (n._keyType, n._valueType)
    if k in ('ExplicitSeq', 'ExplicitSet', 'ExplicitMultiset', 'ExplicitMap'):
        return '%s(%s)' % (k[8:], pl(n._elems))
    if k == 'SeqIndex':
        return '%s[%s]' % (pretty(n._s), pretty(n._idx))
    if k == 'SeqTake':
        return '%s[..%s]' % (pretty(n._s), pretty(n._n))
    if k == 'SeqDrop':
        return '%s[%s..]' % (pretty(n._s), pretty(n._n))
    if k == 'SeqUpdate':
        return '%s[%s := %s]' % (pretty(n._s), pretty(n._idx), pretty(n._elem))
    if k in ('SeqContains', 'AnySetContains'):
        return '(%s in %s)' % (pretty(n._elem), pretty(n._s))
    if k in ('SeqLength', 'AnySetCardinality'):
        return '|%s|' % pretty(n._s)
    if k == 'MapLookup':
        return '%s[%s]' % (pretty(n._base), pretty(n._key))
    if k == 'MapUpdate':
        return '%s[%s := %s]' % (pretty(n._base), pretty(n._key), pretty(n._value))
    if k == 'MapContains':
        return '(%s in %s)' % (pretty(n._key), pretty(n._base))
    if k == 'MapDomain':
        return 'domain(%s)' % pretty(n._base)
    if k == 'MapRange':
        return 'range(%s)' % pretty(n._base)
    if k == 'MapCardinality':
        return '|%s|' % pretty(n._base)
    if k == 'Seqn' or k == 'If' or k == 'While':
        return '{\n%s\n}' % '\n'.join(block(n, 1))
    if k == 'LocalVarAssign' or k == 'FieldAssign':
        return '%s := %s' % (pretty(n._lhs), pretty(n._rhs))
    if k == 'NewStmt':
        return '%s := new(%s)' % (pretty(n._lhs), ', '.join(f._name for f in n._fields))
    if k == 'MethodCall':
        t = pl(n._targets)
        return '%s%s(%s)' % (t + ' := ' if t else '', n._methodName, pl(n._args))
    if k in ('Inhale', 'Exhale', 'Assert', 'Assume', 'Refute'):
        return '%s %s' % (k.lower(), pretty(n._exp))
    if k in ('Fold', 'Unfold'):
        return '%s %s' % (k.lower(), pretty(n._acc))
    if k == 'Label':
        return 'label ' + n._name
    if k == 'Goto':
        return 'goto ' + n._target
    if k == 'LocalVarDecl':
        return '%s: %s' % (n._name, n._typ)
    if k == 'DecreasesTuple':
        c = n._condition
        return 'decreases %s%s' % (pl(n._tupleExpressions), ' if ' + pretty(c.v) if isinstance(c, S.Some) else '')
    if k == 'DecreasesWildcard':
        c = n._condition
        return 'decreases _%s' % (' if ' + pretty(c.v) if isinstance(c, S.Some) else '')
    if k == 'Function':
        o = 'function %s(%s): %s\n' % (n._name, decls(n._formalArgs), n._typ)
        o += ''.join('  requires %s\n' % pretty(x) for x in n._pres)
        o += ''.join('  ensures %s\n' % pretty(x) for x in n._posts)
        if isinstance(n._body, S.Some):
            o += '{ %s }\n' % pretty(n._body.v)
        return o
    if k == 'Method':
        o = 'method %s(%s) returns (%s)\n' % (n._name, decls(n._formalArgs), decls(n._formalReturns))
        o += ''.join('  requires %s\n' % pretty(x) for x in n._pres)
        o += ''.join('  ensures %s\n' % pretty(x) for x in n._posts)
        if isinstance(n._body, S.Some):
            o += '{\n%s\n}\n' % '\n'.join(block(n._body.v, 1))
        return o
    if k == 'Predicate':
        o = 'predicate %s(%s)' % (n._name, decls(n._formalArgs))
        if isinstance(n._body, S.Some):
            o += ' { %s }' % pretty(n._body.v)
        return o + '\n'
    if k == 'Field':
        return 'field %s: %s\n' % (n._name, n._typ)
    if k == 'Domain':
        o = 'domain %s%s {\n' % (n._name, '[%s]' % ', '.join(t._name for t in n._typVars) if len(n._typVars) else '')
        for f in n._functions:
            o += '  %sfunction %s(%s): %s\n' % ('unique ' if f._unique else '', f._name,
                                              ', '.join('%s: %s' % (getattr(a, '_name', '_'), a._typ) for a in f._formalArgs), f._typ)
        for a in n._axioms:
            o += '  axiom %s { %s }\n' % (a.__dict__.get('_name', ''), pretty(a._exp))
        return o + '}\n'
    if k == 'Program':
        return '\n'.join(pretty(x) for c in ('domains', 'fields', 'functions', 'predicates', 'methods')
                         for x in g(c))
    return '%s(%s)' % (k, ', '.join(pretty(g(f)) for f in n.FIELDS))
