"""Dependency-closed slicing of a Silver program (double of Silver's chopper)."""
from . import silver as S


def deps(node):
    out = set()
    types = []
    for n in node.walk():
        k = n.kind
        if k == 'FuncApp':
            out.add(('m', n._funcname))
        elif k == 'DomainFuncApp':
            out.add(('df', n._funcname))
        elif k == 'MethodCall':
            out.add(('call', n._methodName))
        elif k == 'PredicateAccess':
            out.add(('m', n._predicateName))
        elif k == 'PredicateInstance':
            out.add(('m', n._p))
        elif k == 'FieldAccess':
            out.add(('m', n._field._name))
        elif k == 'NewStmt':
            for f in n._fields:
                out.add(('m', f._name))
        elif k in ('LocalVarDecl', 'LocalVar', 'Result', 'UnnamedLocalVarDecl', 'Function', 'DomainFunc', 'Field'):
            types.append(n._typ)
        elif k in ('EmptySeq', 'EmptySet', 'EmptyMultiset'):
            types.append(n._elemTyp)
    while types:
        t = types.pop()
        if isinstance(t, S.DomainType):
            out.add(('d', t._n))
            types.extend(t.args())
        elif isinstance(t, (S.SeqType, S.SetType, S.MultisetType)):
            types.append(t._e)
        elif isinstance(t, S.MapType):
            types += [t._k, t._v]
    return out


def chop(prog, names):
    members = {}
    for c in ('functions', 'predicates', 'methods', 'fields'):
        for m in prog.__dict__['_' + c]:
            members[m._name] = m
    doms = {d._name: d for d in prog._domains}
    dfuncs = {f._name: d._name for d in prog._domains for f in d._functions}
    keep = set()
    full = set()       # methods kept with their bodies
    work = []
    found = False
    for n in names:
        if n in members:
            found = True
            full.add(n)
            work.append(('m', n, True))
        if n in doms:
            found = True
            work.append(('d', n, True))
    if not found:
        return S.NONE
    done = set()
    while work:
        kind, n, body = work.pop()
        key = (kind, n, body)
        if key in done:
            continue
        done.add(key)
        keep.add((kind, n))
        if kind == 'd':
            ds = deps(doms[n]) if n in doms else set()
        else:
            m = members.get(n)
            if m is None:
                continue
            if isinstance(m, S.Method) and not body:
                ds = set()
                for part in list(m._formalArgs) + list(m._formalReturns) + list(m._pres) + list(m._posts):
                    ds |= deps(part)
            else:
                ds = deps(m)
        for k2, n2 in ds:
            if k2 == 'df':
                if n2 not in dfuncs:
                    continue
                k2, n2 = 'd', dfuncs[n2]
            if k2 == 'call':
                work.append(('m', n2, n2 in full))
            else:
                work.append((k2, n2, k2 == 'd' or n2 in full or not isinstance(members.get(n2), S.Method)))
    ms = []
    for m in prog._methods:
        if ('m', m._name) in keep:
            if m._name in full:
                ms.append(m)
            else:
                ms.append(S.Method(m._name, m._formalArgs, m._formalReturns, m._pres, m._posts, S.NONE,
                                   m._pos, m._info, m._errT))
    f = lambda c: S.Seq([m for m in prog.__dict__['_' + c] if ('m', m._name) in keep])
    return S.Some(S.Program(S.Seq([d for d in prog._domains if ('d', d._name) in keep]), f('fields'),
                            f('functions'), f('predicates'), S.Seq(ms), S.Seq([]), prog._pos, prog._info, prog._errT))
