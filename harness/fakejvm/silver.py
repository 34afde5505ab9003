"""A pure-Python double of the Silver AST (viper.silver.ast).

Only the *external* API that nagini_translation programs against is modelled:
constructor argument lists, accessor methods, types of expressions and printing.
"""

NODE_HOOK = None    # controller: called for every constructed node
REG = {}          # fully qualified class name -> class


def fq(name):
    def deco(cls):
        REG[name] = cls
        cls.FQ = name
        return cls
    return deco


class JavaError(Exception):
    """jpype.JException double."""

    def stacktrace(self):
        return 'java.lang.RuntimeException: %s' % self

    def message(self):
        return str(self)

    getMessage = message


class JObjectBase:
    FQ = '?'

    class _Cls:
        def __init__(self, name):
            self._n = name

        def getSimpleName(self):
            return self._n.split('.')[-1]

        def getName(self):
            return self._n

    def getClass(self):
        return JObjectBase._Cls(type(self).FQ)

    def toString(self):
        return str(self)

    def hashCode(self):
        return hash(self)

    def equals(self, o):
        return self == o


# ---------------------------------------------------------------- scala ----
class Seq(JObjectBase):
    """Immutable/mutable scala sequence double."""
    FQ = 'scala.collection.immutable.List'

    def __init__(self, items=()):
        self.items = list(items)

    def update(self, i, v):
        while len(self.items) <= i:
            self.items.append(None)
        self.items[i] = v

    def toList(self):
        return Seq(self.items)

    toSeq = toList

    def toSet(self):
        return ScalaSet(self.items)

    def toMap(self):
        return ScalaMap({k: v for k, v in self.items})

    def toIterator(self):
        return ScalaIterator(iter(list(self.items)))

    iterator = toIterator

    def append(self, x):
        if isinstance(x, Seq):
            self.items.extend(x.items)
        else:
            self.items.append(x)

    def size(self):
        return len(self.items)

    length = size

    def isEmpty(self):
        return not self.items

    def nonEmpty(self):
        return bool(self.items)

    def head(self):
        return self.items[0]

    def tail(self):
        return Seq(self.items[1:])

    def last(self):
        return self.items[-1]

    def apply(self, i):
        return self.items[i]

    def contains(self, x):
        return x in self.items

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __eq__(self, o):
        return isinstance(o, Seq) and self.items == o.items

    def __hash__(self):
        return hash(tuple(self.items))

    def __str__(self):
        return 'List(' + ', '.join(map(str, self.items)) + ')'


class ScalaSet(Seq):
    FQ = 'scala.collection.immutable.Set'

    def __init__(self, items=()):
        self.items = []
        for i in items:
            self.add(i)

    def add(self, e):
        if e not in self.items:
            self.items.append(e)

    def toSet(self):
        return ScalaSet(self.items)


class ScalaMap(JObjectBase):
    FQ = 'scala.collection.immutable.HashMap'

    def __init__(self, d=None):
        self.d = dict(d or {})

    def updated(self, k, v):
        d = dict(self.d)
        d[k] = v
        return ScalaMap(d)

    def toIterator(self):
        return ScalaIterator(iter([Tuple2(k, v) for k, v in self.d.items()]))

    iterator = toIterator

    def get(self, k):
        return Some(self.d[k]) if k in self.d else NONE

    def apply(self, k):
        return self.d[k]

    def contains(self, k):
        return k in self.d

    def keys(self):
        return Seq(self.d.keys())

    def isEmpty(self):
        return not self.d

    def size(self):
        return len(self.d)

    def __eq__(self, o):
        return isinstance(o, ScalaMap) and self.d == o.d

    def __hash__(self):
        return hash(tuple(self.d))


class Tuple2(JObjectBase):
    FQ = 'scala.Tuple2'

    def __init__(self, a, b):
        self.a, self.b = a, b

    def _1(self):
        return self.a

    def _2(self):
        return self.b


class ScalaIterator(JObjectBase):
    FQ = 'scala.collection.Iterator'

    def __init__(self, it):
        self._l = list(it)
        self._i = 0

    def hasNext(self):
        return self._i < len(self._l)

    def next(self):
        self._i += 1
        return self._l[self._i - 1]


class Option(JObjectBase):
    pass


class Some(Option):
    FQ = 'scala.Some'

    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def isDefined(self):
        return True

    def isEmpty(self):
        return False

    nonEmpty = isDefined

    def __eq__(self, o):
        return isinstance(o, Some) and self.v == o.v

    def __hash__(self):
        return hash(('Some', self.v))

    def __str__(self):
        return 'Some(%s)' % (self.v,)


class NoneClass(Option):
    FQ = 'scala.None$'

    def get(self):
        raise JavaError('None.get')

    def isDefined(self):
        return False

    def isEmpty(self):
        return True

    nonEmpty = isDefined

    def __str__(self):
        return 'None'


NONE = NoneClass()


class BigInteger(JObjectBase):
    FQ = 'java.math.BigInteger'

    def __init__(self, s):
        self.v = int(s)

    def negate(self):
        return BigInteger(-self.v)

    def __str__(self):
        return str(self.v)


class BigInt(JObjectBase):
    FQ = 'scala.math.BigInt'

    def __init__(self, b):
        self.v = b.v if isinstance(b, (BigInteger, BigInt)) else int(b)

    def __eq__(self, o):
        return (isinstance(o, BigInt) and self.v == o.v) or (isinstance(o, int) and self.v == o)

    def __hash__(self):
        return hash(self.v)

    def __str__(self):
        return str(self.v)

    def __int__(self):
        return self.v

    __index__ = __int__

    def longValue(self):
        return self.v


# ------------------------------------------------------------ positions ----
P = 'viper.silver.ast.'


@fq(P + 'Position')
class Position(JObjectBase):
    pass


@fq(P + 'HasLineColumn')
class HasLineColumn(Position):
    pass


@fq(P + 'NoPosition$')
class NoPositionC(Position):
    def __str__(self):
        return '<no position>'


NoPosition = NoPositionC()


@fq(P + 'LineColumnPosition')
class LineColumnPosition(HasLineColumn):
    def __init__(self, line, column):
        self._l, self._c = int(line), int(column)

    def line(self):
        return self._l

    def column(self):
        return self._c

    def __eq__(self, o):
        return isinstance(o, LineColumnPosition) and (self._l, self._c) == (o._l, o._c)

    def __hash__(self):
        return hash((self._l, self._c))

    def __str__(self):
        return '%d.%d' % (self._l, self._c)


@fq(P + 'AbstractSourcePosition')
class AbstractSourcePosition(HasLineColumn):
    def __init__(self, file, start, end):
        self._file, self._start, self._end = file, start, end

    def file(self):
        return self._file

    def start(self):
        return self._start

    def end(self):
        return self._end

    def line(self):
        return self._start.line()

    def column(self):
        return self._start.column()

    def _key(self):
        return (str(self._file), self._start, self._end, getattr(self, '_id', None))

    def __eq__(self, o):
        return type(o) is type(self) and self._key() == o._key()

    def __hash__(self):
        return hash((str(self._file), self._start))

    def __str__(self):
        import os
        base = os.path.basename(str(self._file))
        if self._end.isDefined():
            e = self._end.get()
            if self._start.line() == e.line():
                return '%s@%s--%s' % (base, self._start, e)
            return '%s@%s--%s' % (base, self._start, e)
        return '%s@%s' % (base, self._start)


@fq(P + 'SourcePosition')
class SourcePosition(AbstractSourcePosition):
    pass


@fq(P + 'TranslatedPosition')
class TranslatedPosition(AbstractSourcePosition):
    pass


@fq(P + 'IdentifierPosition')
class IdentifierPosition(AbstractSourcePosition):
    def __init__(self, file, start, end, id):
        super().__init__(file, start, end)
        self._id = str(id)

    def id(self):
        return self._id


# ----------------------------------------------------------------- infos ----
@fq(P + 'Info')
class Info(JObjectBase):
    def comment(self):
        return Seq([])


@fq(P + 'NoInfo$')
class NoInfoC(Info):
    def __str__(self):
        return 'NoInfo'


NoInfo = NoInfoC()


@fq(P + 'SimpleInfo')
class SimpleInfo(Info):
    def __init__(self, comment):
        self._c = comment

    def comment(self):
        return self._c


@fq(P + 'ConsInfo')
class ConsInfo(Info):
    def __init__(self, head, tail):
        self._h, self._t = head, tail

    def head(self):
        return self._h

    def tail(self):
        return self._t

    def comment(self):
        return Seq(self._h.comment().items + self._t.comment().items)


@fq(P + 'AnnotationInfo')
class AnnotationInfo(Info):
    def __init__(self, values):
        self._v = values

    def values(self):
        return self._v


@fq(P + 'NoTrafos$')
class NoTrafosC(JObjectBase):
    pass


NoTrafos = NoTrafosC()


# ----------------------------------------------------------------- types ----
@fq(P + 'Type')
class Type(JObjectBase):
    def key(self):
        return (self.FQ,)

    def __eq__(self, o):
        return isinstance(o, Type) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return str(self)


@fq(P + 'AtomicType')
class AtomicType(Type):
    def __str__(self):
        return self.NAME


def _atomic(n):
    c = type(n + 'Type', (AtomicType,), {'NAME': n})
    fq(P + n + '$')(c)
    return c()


Int = _atomic('Int')
Bool = _atomic('Bool')
Ref = _atomic('Ref')
Perm = _atomic('Perm')
Wand = _atomic('Wand')
InternalType = _atomic('InternalType')


@fq(P + 'TypeVar')
class TypeVar(Type):
    def __init__(self, name):
        self._name = name

    def name(self):
        return self._name

    def key(self):
        return ('TypeVar', self._name)

    def __str__(self):
        return self._name


def _coll(n):
    def init(self, elementType):
        self._e = elementType
    c = type(n + 'Type', (Type,), {
        '__init__': init, 'elementType': lambda self: self._e,
        'key': lambda self: (n, self._e.key()),
        '__str__': lambda self: '%s[%s]' % (n, self._e)})
    return fq(P + n + 'Type')(c)


SeqType = _coll('Seq')
SetType = _coll('Set')
MultisetType = _coll('Multiset')


@fq(P + 'MapType')
class MapType(Type):
    def __init__(self, k, v):
        self._k, self._v = k, v

    def keyType(self):
        return self._k

    def valueType(self):
        return self._v

    def key(self):
        return ('Map', self._k.key(), self._v.key())

    def __str__(self):
        return 'Map[%s,%s]' % (self._k, self._v)


@fq(P + 'DomainType')
class DomainType(Type):
    def __init__(self, name, partialMap, params):
        self._n, self._m, self._p = name, partialMap, params

    def domainName(self):
        return self._n

    def partialTypVarsMap(self):
        return self._m

    def typVarsMap(self):
        return self._m

    def typeParameters(self):
        return self._p

    def args(self):
        return [self._m.d.get(p, p) for p in self._p.items]

    def key(self):
        return ('Domain', self._n, tuple(a.key() for a in self.args()))

    def __str__(self):
        a = self.args()
        return self._n + ('[%s]' % ','.join(map(str, a)) if a else '')


def subst(t, m):
    if isinstance(t, TypeVar):
        return m.get(t, t)
    if isinstance(t, (SeqType, SetType, MultisetType)):
        return type(t)(subst(t._e, m))
    if isinstance(t, MapType):
        return MapType(subst(t._k, m), subst(t._v, m))
    if isinstance(t, DomainType):
        return DomainType(t._n, ScalaMap({p: subst(t._m.d.get(p, p), m) for p in t._p.items}), t._p)
    return t


# ----------------------------------------------------------------- nodes ----
@fq(P + 'Node')
class Node(JObjectBase):
    FIELDS = ()      # accessor names, without pos/info/errT
    DEFAULTS = {}
    TAIL = ('pos', 'info', 'errT')
    ORDER = None     # constructor order if not FIELDS + TAIL

    def __init__(self, *args):
        if NODE_HOOK is not None:
            NODE_HOOK(self)
        order = self.ORDER or (tuple(self.FIELDS) + self.TAIL)
        if len(args) > len(order):
            raise JavaError('No matching overloads found for %s%r' % (self.FQ, args))
        vals = dict(zip(order, args))
        for f in order[len(args):]:
            if f == 'pos':
                vals[f] = NoPosition
            elif f == 'info':
                vals[f] = NoInfo
            elif f == 'errT':
                vals[f] = NoTrafos
            else:
                raise JavaError('No matching overloads found for %s with %d args' % (self.FQ, len(args)))
        for f in order:
            v = vals[f]
            if f in ('pos', 'info', 'errT') and v is None:
                # Java null: accepted by the JVM constructor
                v = NoPosition if f == 'pos' else NoInfo if f == 'info' else NoTrafos
            if f == 'pos' and not isinstance(v, Position):
                raise JavaError('%s: bad position %r' % (self.FQ, v))
            if f == 'info' and not isinstance(v, Info):
                raise JavaError('%s: bad info %r' % (self.FQ, v))
            if f not in ('pos', 'info', 'errT') and isinstance(v, (list, dict, set)):
                raise JavaError('%s.%s: python collection passed to JVM' % (self.FQ, f))
            self.__dict__['_' + f] = v

    @property
    def kind(self):
        return type(self).__name__

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        d = self.__dict__
        if '_' + name in d:
            v = d['_' + name]
            return lambda: v
        raise AttributeError("%s has no member %s" % (self.FQ, name))

    def children(self):
        out = []

        def add(v):
            if isinstance(v, Node):
                out.append(v)
            elif isinstance(v, Some):
                add(v.v)
            elif isinstance(v, Seq):
                for x in v.items:
                    add(x)
        for f in self.FIELDS:
            add(self.__dict__['_' + f])
        return out

    def subnodes(self):
        return Seq(self.children())

    def walk(self):
        stack = [self]
        while stack:
            n = stack.pop()
            yield n
            stack.extend(reversed(n.children()))

    def rebuild(self, fn):
        """Structural copy with fn applied to every direct child node."""
        def go(v):
            if isinstance(v, Node):
                return fn(v)
            if isinstance(v, Some):
                return Some(go(v.v))
            if isinstance(v, Seq) and not isinstance(v, ScalaSet):
                return Seq([go(x) for x in v.items])
            return v
        order = self.ORDER or (tuple(self.FIELDS) + self.TAIL)
        return type(self)(*[go(self.__dict__['_' + f]) if f in self.FIELDS else self.__dict__['_' + f]
                            for f in order])

    def replace(self, original, replacement):
        """Silver's Node.replace: every occurrence of original becomes replacement."""
        def go(n):
            if n == original:
                return replacement
            return n.rebuild(go)
        return go(self)

    def isPure(self):
        if isinstance(self, (AccessPredicate, MagicWand)):
            return False
        k = self.kind
        g = lambda f: self.__dict__['_' + f]
        if k in ('Unfolding', 'Asserting', 'Let'):
            return g('body').isPure()
        if isinstance(self, (Not, Minus)) or isinstance(self, (Forall, Exists)):
            return g('exp').isPure()
        if k == 'ForPerm':
            return g('body').isPure()
        if k == 'InhaleExhaleExp':
            return g('in').isPure() and g('ex').isPure()
        if k == 'CondExp':
            return g('cond').isPure() and g('thn').isPure() and g('els').isPure()
        if isinstance(self, BinExp):
            a, b = self.FIELDS
            return g(a).isPure() and g(b).isPure()
        return True

    def whenExhaling(self):
        return self._pick('ex')

    def whenInhaling(self):
        return self._pick('in')

    def _pick(self, side):
        def go(n):
            if n.kind == 'InhaleExhaleExp':
                return go(n.__dict__['_' + side])
            return n.rebuild(go)
        return go(self)

    def _eqkey(self):
        return tuple(self.__dict__['_' + f] for f in self.FIELDS)

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self._eqkey() == o._eqkey())

    def __hash__(self):
        return hash((self.kind,) + tuple(hash(x) if not isinstance(x, Seq) else len(x.items) for x in self._eqkey()))

    def __str__(self):
        from . import printer
        return printer.pretty(self)

    __repr__ = __str__

    def copy(self, *args):
        return type(self)(*args)


def mk(name, base, fields, typ=None, order=None, pkg=P, **extra):
    bases = base if isinstance(base, tuple) else (base,)
    d = {'FIELDS': tuple(fields.split()) if isinstance(fields, str) else tuple(fields)}
    if order:
        d['ORDER'] = tuple(order.split())
    if typ is not None:
        d['typ'] = (lambda self: typ(self)) if callable(typ) and not isinstance(typ, Type) else (lambda self: typ)
    d.update(extra)
    c = type(name, bases, d)
    fq(pkg + name)(c)
    globals()[name] = c
    return c


mk('Hashable', Node, '')
mk('Exp', Node, '')
mk('Stmt', Node, '')
mk('Declaration', Node, '')
mk('Member', Node, '')
mk('LocationAccess', Exp, '')
mk('AccessPredicate', Exp, '', Bool)
mk('ResourceAccess', Exp, '')
mk('BinExp', Exp, '')
mk('Literal', Exp, '')
mk('PermExp', Exp, '')
mk('QuantifiedExp', Exp, '')
mk('OldExp', Exp, '')

# members
mk('Program', Node, 'domains fields functions predicates methods extensions')
mk('Function', Member, 'name formalArgs typ pres posts body')
mk('Method', Member, 'name formalArgs formalReturns pres posts body')
mk('Field', Member, 'name typ')
mk('Predicate', Member, 'name formalArgs body')
mk('Domain', Member, 'name functions axioms typVars interpretations')
mk('DomainFunc', Member, 'name formalArgs typ unique interpretation domainName',
   order='name formalArgs typ unique interpretation pos info domainName errT')
mk('DomainAxiom', Member, '')
mk('NamedDomainAxiom', DomainAxiom, 'name exp domainName', order='name exp pos info domainName errT')
mk('AnonymousDomainAxiom', DomainAxiom, 'exp domainName', order='exp pos info domainName errT')
mk('LocalVarDecl', Declaration, 'name typ',
   localVar=lambda s: LocalVar(s._name, s._typ, s._pos, s._info, s._errT))
mk('UnnamedLocalVarDecl', Declaration, 'typ')

# expressions
for n in ('Add', 'Sub', 'Mul', 'Div', 'Mod'):
    mk(n, BinExp, 'left right', Int)
for n in ('LtCmp', 'LeCmp', 'GtCmp', 'GeCmp', 'EqCmp', 'NeCmp', 'And', 'Or', 'Implies',
          'PermLtCmp', 'PermLeCmp', 'PermGtCmp', 'PermGeCmp', 'MagicWand'):
    mk(n, BinExp, 'left right', Bool)
for n in ('PermAdd', 'PermSub', 'PermMul', 'IntPermMul', 'PermDiv', 'FractionalPerm', 'PermPermDiv'):
    mk(n, (BinExp, PermExp), 'left right', Perm)
for n in ('FullPerm', 'NoPerm', 'WildcardPerm', 'EpsilonPerm'):
    mk(n, PermExp, '', Perm)
mk('PermMinus', PermExp, 'exp', Perm)
mk('CurrentPerm', PermExp, 'res', Perm)
mk('ForPerm', QuantifiedExp, 'variables resource body', Bool)
mk('Not', Exp, 'exp', Bool)
mk('Minus', Exp, 'exp', Int)
mk('IntLit', Literal, 'i', Int)
mk('TrueLit', Literal, '', Bool)
mk('FalseLit', Literal, '', Bool)
mk('NullLit', Literal, '', Ref)
mk('CondExp', Exp, 'cond thn els', lambda s: s._thn.typ())
mk('LocalVar', Exp, 'name typ')
mk('Result', Exp, 'typ')
mk('FieldAccess', LocationAccess, 'rcv field', lambda s: s._field._typ)
mk('PredicateAccess', LocationAccess, 'args predicateName', Bool)
mk('FieldAccessPredicate', AccessPredicate, 'loc permExp', Bool)
mk('PredicateAccessPredicate', AccessPredicate, 'loc permExp', Bool)
mk('FuncApp', Exp, 'funcname args typ', order='funcname args pos info typ errT')


def _dfa_typ(s):
    return subst(s._typ0, s._typVarMap.d)


mk('DomainFuncApp', Exp, 'funcname args typVarMap typ0 domainName', _dfa_typ,
   order='funcname args typVarMap pos info typ0 domainName errT')
mk('Old', OldExp, 'exp', lambda s: s._exp.typ())
mk('LabelledOld', OldExp, 'exp oldLabel', lambda s: s._exp.typ())
mk('InhaleExhaleExp', Exp, 'in ex', Bool)
mk('Unfolding', Exp, 'acc body', lambda s: s._body.typ())
mk('Asserting', Exp, 'a body', lambda s: s._body.typ())
mk('Let', Exp, 'variable exp body', lambda s: s._body.typ())
mk('Forall', QuantifiedExp, 'variables triggers exp', Bool)
mk('Exists', QuantifiedExp, 'variables triggers exp', Bool)
mk('Trigger', Node, 'exps')
mk('EmptySeq', Exp, 'elemTyp', lambda s: SeqType(s._elemTyp))
mk('EmptySet', Exp, 'elemTyp', lambda s: SetType(s._elemTyp))
mk('EmptyMultiset', Exp, 'elemTyp', lambda s: MultisetType(s._elemTyp))
mk('EmptyMap', Exp, 'keyType valueType', lambda s: MapType(s._keyType, s._valueType))
mk('ExplicitSeq', Exp, 'elems', lambda s: SeqType(s._elems[0].typ()))
mk('ExplicitSet', Exp, 'elems', lambda s: SetType(s._elems[0].typ()))
mk('ExplicitMultiset', Exp, 'elems', lambda s: MultisetType(s._elems[0].typ()))
mk('ExplicitMap', Exp, 'elems', lambda s: s._elems[0].maptyp())
mk('Maplet', Exp, 'key value', lambda s: None)
mk('RangeSeq', Exp, 'low high', lambda s: SeqType(Int))
mk('SeqAppend', BinExp, 'left right', lambda s: s._left.typ())
mk('SeqIndex', Exp, 's idx', lambda s: s._s.typ()._e)
mk('SeqTake', Exp, 's n', lambda s: s._s.typ())
mk('SeqDrop', Exp, 's n', lambda s: s._s.typ())
mk('SeqContains', BinExp, 'elem s', Bool)
mk('SeqUpdate', Exp, 's idx elem', lambda s: s._s.typ())
mk('SeqLength', Exp, 's', Int)
mk('AnySetUnion', BinExp, 'left right', lambda s: s._left.typ())
mk('AnySetIntersection', BinExp, 'left right', lambda s: s._left.typ())
mk('AnySetMinus', BinExp, 'left right', lambda s: s._left.typ())
mk('AnySetSubset', BinExp, 'left right', Bool)
mk('AnySetContains', BinExp, 'elem s',
   lambda s: Int if isinstance(s._s.typ(), MultisetType) else Bool)
mk('AnySetCardinality', Exp, 's', Int)
mk('MapLookup', Exp, 'base key', lambda s: s._base.typ()._v)
mk('MapContains', BinExp, 'key base', Bool)
mk('MapUpdate', Exp, 'base key value', lambda s: s._base.typ())
mk('MapCardinality', Exp, 'base', Int)
mk('MapDomain', Exp, 'base', lambda s: SetType(s._base.typ()._k))
mk('MapRange', Exp, 'base', lambda s: SetType(s._base.typ()._v))

# statements
mk('Seqn', Stmt, 'ss scopedSeqnDeclarations')
mk('NewStmt', Stmt, 'lhs fields')
mk('LocalVarAssign', Stmt, 'lhs rhs')
mk('FieldAssign', Stmt, 'lhs rhs')
mk('MethodCall', Stmt, 'methodName args targets')
mk('Inhale', Stmt, 'exp')
mk('Exhale', Stmt, 'exp')
mk('Assert', Stmt, 'exp')
mk('Assume', Stmt, 'exp')
mk('Fold', Stmt, 'acc')
mk('Unfold', Stmt, 'acc')
mk('Label', (Stmt, Declaration), 'name invs')
mk('Goto', Stmt, 'target')
mk('If', Stmt, 'cond thn els')
mk('While', Stmt, 'cond invs body')
mk('LocalVarDeclStmt', Stmt, 'decl')

SP = 'viper.silver.plugin.standard.'
mk('Refute', Stmt, 'exp', pkg=SP + 'refute.')
mk('DecreasesTuple', Exp, 'tupleExpressions condition', Bool, pkg=SP + 'termination.')
mk('DecreasesWildcard', Exp, 'condition', Bool, pkg=SP + 'termination.')
mk('DecreasesStar', Exp, '', Bool, pkg=SP + 'termination.')
mk('PredicateInstance', Exp, 'p args', DomainType('PredicateInstance', ScalaMap(), Seq()),
   pkg=SP + 'predicateinstance.')

# SIF extension
SIF = 'viper.silver.sif.'
mk('SIFReturnStmt', Stmt, 'exp resVar', pkg=SIF)
mk('SIFBreakStmt', Stmt, '', pkg=SIF)
mk('SIFContinueStmt', Stmt, '', pkg=SIF)
mk('SIFRaiseStmt', Stmt, 'assignment', pkg=SIF)
mk('SIFExceptionHandler', Stmt, 'errVar exception body', pkg=SIF)
mk('SIFWhileElse', Stmt, 'loop els', pkg=SIF)
mk('SIFTryCatchStmt', Stmt, 'body catchBlocks elseBlock finallyBlock', pkg=SIF)
mk('SIFLowExp', Exp, 'exp comparator typVarMap', Bool, pkg=SIF)
mk('SIFLowEventExp', Exp, '', Bool, pkg=SIF)
mk('SIFLowExitExp', Exp, '', Bool, pkg=SIF)
mk('SIFDeclassifyStmt', Stmt, 'exp', pkg=SIF)
mk('SIFInlinedCallStmt', Stmt, 'stmts', pkg=SIF)
mk('SIFAssertNoException', Stmt, '', pkg=SIF)
mk('SIFTerminatesExp', Exp, 'cond', Bool, pkg=SIF)


@fq(SIF + 'SIFInfo')
class SIFInfo(Info):
    def __init__(self, comment, continueUnaware=False, obligationVar=False):
        self._c, self.cu, self.ov = comment, continueUnaware, obligationVar

    def comment(self):
        return self._c

    def continueUnaware(self):
        return self.cu

    def obligationVar(self):
        return self.ov


@fq(SIF + 'SIFDynCheckInfo')
class SIFDynCheckInfo(Info):
    def __init__(self, comment, dynCheck, onlyDynVersion=False):
        self._c, self.dc, self.od = comment, dynCheck, onlyDynVersion

    def comment(self):
        return self._c

    def dynCheck(self):
        return self.dc

    def onlyDynVersion(self):
        return self.od


for _n in ('AddOp', 'AndOp', 'DivOp', 'FracOp', 'GeOp', 'GtOp', 'ImpliesOp', 'IntPermMulOp', 'LeOp',
           'LtOp', 'ModOp', 'MulOp', 'NegOp', 'NotOp', 'OrOp', 'PermAddOp', 'PermDivOp', 'SubOp'):
    REG[P + _n + '$'] = type(_n + '$', (JObjectBase,), {'FQ': P + _n + '$'})


def _function_apply(*args):
    return Function(*args)


class FunctionCompanion(JObjectBase):
    FQ = P + 'Function$'

    def apply(self, *a):
        return Function(*a)


REG[P + 'Function$'] = FunctionCompanion


def check_transitively(prog):
    from . import wellformed
    return Seq([ConsistencyError(m) for m in wellformed.check(prog)])


class ConsistencyError(JObjectBase):
    FQ = 'viper.silver.verifier.ConsistencyError'

    def __init__(self, m):
        self.m = m

    def __str__(self):
        return self.m


Program.checkTransitively = check_transitively
