"""Parser for .sil/.vpr files producing the Silver double's AST.

Two passes: (1) concrete syntax -> tuples; (2) resolution + typing -> nodes."""
import os
import re

from . import silver as S

TOK = re.compile(r'''
 (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
|(?P<num>\d+)
|(?P<str>"[^"]*")
|(?P<id>[A-Za-z_$@][A-Za-z_$0-9]*)
|(?P<op><==>|==>|--\*|:=|::|\.\.|\+\+|==|!=|<=|>=|&&|\|\||[-+*/\\%<>!?:;,.(){}\[\]|])
''', re.X | re.S)


class ParseError(Exception):
    pass


class Tk:
    __slots__ = ('k', 'v', 'line', 'col', 'file')

    def __init__(self, k, v, line, col, file):
        self.k, self.v, self.line, self.col, self.file = k, v, line, col, file


def tokenize(text, file):
    out = []
    i = 0
    line, lstart = 1, 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise ParseError('%s:%d: bad character %r' % (file, line, text[i]))
        k = m.lastgroup
        v = m.group()
        if k != 'ws':
            out.append(Tk(k, v, line, i - lstart + 1, file))
        nl = v.count('\n')
        if nl:
            line += nl
            lstart = i + v.rfind('\n') + 1
        i = m.end()
    out.append(Tk('eof', '', line, 0, file))
    return out


class Parser:
    def __init__(self, text, file, macros=None):
        self.t = tokenize(text, file)
        self.i = 0
        self.file = file
        self.macros = macros if macros is not None else {}
        self.decls = []
        self.imports = []

    @property
    def cur(self):
        return self.t[self.i]

    def peek(self, n=1):
        return self.t[min(self.i + n, len(self.t) - 1)]

    def at(self, *vs):
        return self.cur.v in vs and self.cur.k in ('id', 'op')

    def eat(self, v):
        if self.cur.v != v or self.cur.k == 'str':
            raise ParseError('%s:%d:%d: expected %r, found %r' % (self.cur.file, self.cur.line, self.cur.col, v, self.cur.v))
        self.i += 1

    def opt(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def ident(self):
        if self.cur.k != 'id':
            raise ParseError('%s:%d: expected identifier, found %r' % (self.cur.file, self.cur.line, self.cur.v))
        v = self.cur.v
        self.i += 1
        return v

    # --- program
    def program(self):
        while self.cur.k != 'eof':
            if self.opt('import'):
                if self.cur.k == 'str':
                    self.imports.append(self.cur.v.strip('"'))
                    self.i += 1
                else:
                    self.eat('<')
                    while not self.at('>'):
                        self.i += 1
                    self.eat('>')
            elif self.opt('define'):
                n = self.ident()
                if self.opt('('):
                    # parameterless macro with parenthesised body
                    body = []
                    depth = 1
                    while True:
                        if self.at('('):
                            depth += 1
                        if self.at(')'):
                            depth -= 1
                            if depth == 0:
                                self.i += 1
                                break
                        body.append(self.cur)
                        self.i += 1
                    self.macros[n] = body
                else:
                    raise ParseError('unsupported macro')
            elif self.at('domain'):
                self.decls.append(self.domain())
            elif self.at('function'):
                self.decls.append(self.function())
            elif self.at('method'):
                self.decls.append(self.method())
            elif self.at('predicate'):
                self.decls.append(self.predicate())
            elif self.at('field'):
                self.eat('field')
                while True:
                    p = self.pos()
                    n = self.ident()
                    self.eat(':')
                    self.decls.append(('field', n, self.type(), p))
                    if not self.opt(','):
                        break
            else:
                raise ParseError('%s:%d: unexpected %r' % (self.cur.file, self.cur.line, self.cur.v))
        return self

    def pos(self):
        return (self.cur.file, self.cur.line, self.cur.col)

    def type(self):
        n = self.ident()
        args = []
        if self.opt('['):
            while True:
                args.append(self.type())
                if not self.opt(','):
                    break
            self.eat(']')
        return (n, args)

    def formals(self, named=True):
        self.eat('(')
        out = []
        while not self.at(')'):
            if self.peek().v == ':':
                n = self.ident()
                self.eat(':')
                out.append((n, self.type()))
            else:
                out.append((None, self.type()))
            self.opt(',')
        self.eat(')')
        return out

    def interp(self):
        if self.opt('interpretation'):
            if self.cur.k == 'str':
                v = self.cur.v.strip('"')
                self.i += 1
                return v
            self.eat('(')
            d = {}
            while not self.at(')'):
                k = self.ident()
                self.eat(':')
                d[k] = self.cur.v.strip('"')
                self.i += 1
                self.opt(',')
            self.eat(')')
            return d
        return None

    def domain(self):
        p = self.pos()
        self.eat('domain')
        n = self.ident()
        tv = []
        if self.opt('['):
            while True:
                tv.append(self.ident())
                if not self.opt(','):
                    break
            self.eat(']')
        it = self.interp()
        self.eat('{')
        fs, ax = [], []
        while not self.opt('}'):
            fp = self.pos()
            uniq = self.opt('unique')
            if self.opt('function'):
                fn = self.ident()
                a = self.formals()
                self.eat(':')
                t = self.type()
                fs.append((fn, a, t, uniq, self.interp(), fp))
                self.opt(';')
            else:
                self.eat('axiom')
                an = self.ident() if self.cur.k == 'id' else None
                self.eat('{')
                e = self.exp()
                self.eat('}')
                ax.append((an, e, fp))
        return ('domain', n, tv, fs, ax, it, p)

    def contracts(self):
        pres, posts, decs = [], [], []
        while True:
            if self.opt('requires'):
                pres.append(self.exp())
                self.opt(';')
            elif self.opt('ensures'):
                posts.append(self.exp())
                self.opt(';')
            elif self.at('decreases'):
                p = self.pos()
                self.eat('decreases')
                if self.opt('_'):
                    d = ('decw', None)
                elif self.opt('*'):
                    d = ('decs',)
                else:
                    es = []
                    if not self.at('requires', 'ensures', '{', 'function', 'method', 'decreases', 'domain', 'predicate', 'field'):
                        es.append(self.exp())
                        while self.opt(','):
                            es.append(self.exp())
                    d = ('dect', es, None)
                if self.opt('if'):
                    d = d[:-1] + (self.exp(),)
                decs.append((d, p))
            else:
                return pres, posts, decs

    def function(self):
        p = self.pos()
        self.eat('function')
        n = self.ident()
        a = self.formals()
        self.eat(':')
        t = self.type()
        c = self.contracts()
        body = None
        if self.opt('{'):
            body = self.exp()
            self.eat('}')
        return ('function', n, a, t, c, body, p)

    def predicate(self):
        p = self.pos()
        self.eat('predicate')
        n = self.ident()
        a = self.formals()
        body = None
        if self.opt('{'):
            body = self.exp()
            self.eat('}')
        return ('predicate', n, a, body, p)

    def method(self):
        p = self.pos()
        self.eat('method')
        n = self.ident()
        a = self.formals()
        r = []
        if self.opt('returns'):
            r = self.formals()
        c = self.contracts()
        body = None
        if self.at('{'):
            body = self.block()
        return ('method', n, a, r, c, body, p)

    def block(self):
        self.eat('{')
        ss = []
        while not self.opt('}'):
            ss.append(self.stmt())
            self.opt(';')
        return ss

    def stmt(self):
        p = self.pos()
        if self.opt('var'):
            n = self.ident()
            self.eat(':')
            t = self.type()
            init = None
            if self.opt(':='):
                init = self.exp()
            return ('var', n, t, init, p)
        for k in ('inhale', 'exhale', 'assert', 'assume', 'fold', 'unfold', 'refute'):
            if self.opt(k):
                return (k, self.exp(), p)
        if self.opt('label'):
            return ('label', self.ident(), p)
        if self.opt('goto'):
            return ('goto', self.ident(), p)
        if self.opt('if'):
            self.eat('(')
            c = self.exp()
            self.eat(')')
            th = self.block()
            el = []
            if self.opt('else'):
                el = self.block()
            elif self.opt('elseif'):
                raise ParseError('elseif')
            return ('if', c, th, el, p)
        if self.opt('while'):
            self.eat('(')
            c = self.exp()
            self.eat(')')
            invs = []
            while self.opt('invariant'):
                invs.append(self.exp())
            return ('while', c, invs, self.block(), p)
        e = self.exp()
        tg = [e]
        while self.opt(','):
            tg.append(self.exp())
        if self.opt(':='):
            if self.opt('new'):
                self.eat('(')
                fs = []
                while not self.at(')'):
                    fs.append(self.cur.v)
                    self.i += 1
                    self.opt(',')
                self.eat(')')
                return ('new', tg[0], fs, p)
            rhs = self.exp()
            return ('assign', tg, rhs, p)
        return ('assign', [], e, p)

    # --- expressions (lowest to highest)
    def exp(self):
        return self.iff()

    def iff(self):
        l = self.impl()
        while self.at('<==>'):
            p = self.pos()
            self.eat('<==>')
            l = ('bin', '<==>', l, self.impl(), p)
        # ternary has lowest precedence
        if self.at('?'):
            p = self.pos()
            self.eat('?')
            a = self.exp()
            self.eat(':')
            b = self.exp()
            return ('cond', l, a, b, p)
        return l

    def impl(self):
        l = self.wand()
        if self.at('==>'):
            p = self.pos()
            self.eat('==>')
            return ('bin', '==>', l, self.impl(), p)
        return l

    def wand(self):
        return self.or_()

    def or_(self):
        l = self.and_()
        if self.at('||'):
            p = self.pos()
            self.eat('||')
            return ('bin', '||', l, self.or_(), p)
        return l

    def and_(self):
        l = self.eq()
        if self.at('&&'):
            p = self.pos()
            self.eat('&&')
            return ('bin', '&&', l, self.and_(), p)
        return l

    def eq(self):
        l = self.cmp()
        if self.at('==', '!='):
            p = self.pos()
            o = self.cur.v
            self.i += 1
            return ('bin', o, l, self.eq(), p)
        return l

    def cmp(self):
        l = self.sum()
        first = True
        res = None
        while self.at('<', '<=', '>', '>=', 'in'):
            p = self.pos()
            o = self.cur.v
            if o == 'in' and getattr(self, 'noin', False):
                break
            self.i += 1
            r = self.sum()
            c = ('bin', o, l, r, p)
            res = c if res is None else ('bin', '&&', res, c, p)
            l = r
        return res if res is not None else l

    def sum(self):
        l = self.term()
        while self.at('+', '-', '++', 'union', 'intersection', 'setminus', 'subset'):
            p = self.pos()
            o = self.cur.v
            self.i += 1
            l = ('bin', o, l, self.term(), p)
        return l

    def term(self):
        l = self.suffix()
        while self.at('*', '/', '\\', '%'):
            p = self.pos()
            o = self.cur.v
            self.i += 1
            l = ('bin', o, l, self.suffix(), p)
        return l

    def suffix(self):
        e = self.atom()
        while True:
            p = self.pos()
            if self.at('.') :
                self.eat('.')
                e = ('field', e, self.ident(), p)
            elif self.at('[') and self.cur.line == self.t[self.i - 1].line:
                self.eat('[')
                if self.opt('..'):
                    hi = self.exp()
                    self.eat(']')
                    e = ('take', e, hi, p)
                else:
                    a = self.exp()
                    if self.opt('..'):
                        if self.opt(']'):
                            e = ('drop', e, a, p)
                        else:
                            b = self.exp()
                            self.eat(']')
                            e = ('drop', ('take', e, b, p), a, p)
                    elif self.opt(':='):
                        b = self.exp()
                        self.eat(']')
                        e = ('upd', e, a, b, p)
                    else:
                        self.eat(']')
                        e = ('idx', e, a, p)
            else:
                return e

    def args(self):
        self.eat('(')
        out = []
        while not self.at(')'):
            out.append(self.exp())
            self.opt(',')
        self.eat(')')
        return out

    def atom(self):
        p = self.pos()
        c = self.cur
        if c.k == 'num':
            self.i += 1
            return ('int', int(c.v), p)
        if c.k == 'op':
            if self.opt('('):
                old = getattr(self, 'noin', False)
                self.noin = False
                e = self.exp()
                self.noin = old
                self.eat(')')
                return e
            if self.opt('!'):
                return ('not', self.suffix(), p)
            if self.opt('-'):
                return ('neg', self.suffix(), p)
            if self.opt('|'):
                e = self.exp()
                self.eat('|')
                return ('len', e, p)
            if self.opt('['):
                a = self.exp()
                if self.opt('..'):
                    b = self.exp()
                    self.eat(')')
                    return ('rangeseq', a, b, p)
                self.eat(',')
                b = self.exp()
                self.eat(']')
                return ('inex', a, b, p)
            raise ParseError('%s:%d:%d: unexpected %r' % (c.file, c.line, c.col, c.v))
        v = c.v
        if v.startswith('@'):
            self.i += 1
            self.eat('(')
            arg = self.cur.v.strip('"')
            self.i += 1
            self.eat(')')
            return ('annot', v[1:], arg, self.suffix() if self.cur.v not in ('let',) else self.exp(), p)
        if v in self.macros and self.peek().v != '(':
            self.i += 1
            sub = Parser('', self.file, self.macros)
            sub.t = list(self.macros[v]) + [Tk('eof', '', c.line, 0, c.file)]
            return sub.exp()
        self.i += 1
        if v in ('true', 'false', 'null', 'result', 'write', 'none', 'wildcard'):
            return (v, p)
        if v in ('forall', 'exists', 'forperm'):
            vs = []
            while True:
                n = self.ident()
                self.eat(':')
                vs.append((n, self.type()))
                if not self.opt(','):
                    break
            self.eat('::')
            trs = []
            while self.at('{'):
                self.eat('{')
                tr = []
                while not self.at('}'):
                    tr.append(self.exp())
                    self.opt(',')
                self.eat('}')
                trs.append(tr)
            old = getattr(self, 'noin', False)
            self.noin = False
            e = self.exp()
            self.noin = old
            return (v, vs, trs, e, p)
        if v == 'let':
            n = self.ident()
            self.eat('==')
            self.eat('(')
            e = self.exp()
            self.eat(')')
            self.eat('in')
            return ('let', n, e, self.exp(), p)
        if v == 'unfolding':
            a = self.suffix()
            self.eat('in')
            return ('unfolding', a, self.exp(), p)
        if v == 'old':
            if self.opt('['):
                l = self.ident()
                self.eat(']')
                return ('lold', l, self.args()[0], p)
            return ('old', self.args()[0], p)
        if v == 'acc':
            a = self.args()
            return ('acc', a[0], a[1] if len(a) > 1 else None, p)
        if v == 'perm':
            return ('perm', self.args()[0], p)
        if v in ('Seq', 'Set', 'Multiset', 'Map') and self.at('[', '('):
            ta = None
            if self.opt('['):
                ta = [self.type()]
                while self.opt(','):
                    ta.append(self.type())
                self.eat(']')
            if v == 'Map':
                self.eat('(')
                prs = []
                while not self.at(')'):
                    a = self.exp()
                    self.eat(':=')
                    prs.append((a, self.exp()))
                    self.opt(',')
                self.eat(')')
                return ('mapc', ta, prs, p)
            return ('coll', v, ta, self.args(), p)
        if self.at('('):
            return ('call', v, self.args(), p)
        return ('var', v, p)


def parse_files(text, path):
    """Parse text (located at path) and, transitively, its imports."""
    macros = {}
    seen = {os.path.abspath(path)}
    base = os.path.dirname(os.path.abspath(path))
    # macros may be defined in the main file and used in imported files
    main = Parser(text, path, macros)
    # pre-scan for macros so that main file bodies may use later macros
    main.program()
    decls = []
    queue = list(main.imports)
    while queue:
        n = queue.pop(0)
        fp = os.path.abspath(os.path.join(base, n))
        if fp in seen:
            continue
        seen.add(fp)
        with open(fp) as f:
            pp = Parser(f.read(), fp, macros)
        pp.program()
        decls.extend(pp.decls)
        queue.extend(pp.imports)
    return main.decls + decls


class Resolver:
    def __init__(self, decls):
        self.decls = decls
        self.fields = {}
        self.funcs = {}
        self.dfuncs = {}
        self.preds = {}
        self.methods = {}
        self.domains = {}

    def mkpos(self, p):
        if p is None:
            return S.NoPosition
        return S.SourcePosition(p[0], S.LineColumnPosition(p[1], p[2]), S.NONE)

    def type(self, t, tvs=()):
        n, a = t
        if n in ('Int', 'Bool', 'Ref', 'Perm'):
            return getattr(S, n)
        if n == 'Rational':
            return S.Perm
        if n == 'Seq':
            return S.SeqType(self.type(a[0], tvs))
        if n == 'Set':
            return S.SetType(self.type(a[0], tvs))
        if n == 'Multiset':
            return S.MultisetType(self.type(a[0], tvs))
        if n == 'Map':
            return S.MapType(self.type(a[0], tvs), self.type(a[1], tvs))
        if n in tvs:
            return S.TypeVar(n)
        if n in ('PredicateInstance',):
            return S.DomainType(n, S.ScalaMap(), S.Seq())
        if n not in self.domains:
            raise ParseError('unknown type ' + n)
        ps = [S.TypeVar(x) for x in self.domains[n][2]]
        return S.DomainType(n, S.ScalaMap(dict(zip(ps, [self.type(x, tvs) for x in a]))), S.Seq(ps))

    def run(self):
        for d in self.decls:
            if d[0] == 'domain':
                if d[1] in self.domains:
                    raise ParseError('duplicate domain ' + d[1])
                self.domains[d[1]] = d
        for d in self.decls:
            if d[0] == 'domain':
                for f in d[3]:
                    self.dfuncs[f[0]] = (d[1], [self.type(x[1], d[2]) for x in f[1]], self.type(f[2], d[2]), d[2])
            elif d[0] == 'function':
                if d[1] in self.funcs:
                    raise ParseError('duplicate function ' + d[1])
                self.funcs[d[1]] = ([self.type(x[1]) for x in d[2]], self.type(d[3]))
            elif d[0] == 'predicate':
                self.preds[d[1]] = [self.type(x[1]) for x in d[2]]
            elif d[0] == 'method':
                if d[1] in self.methods:
                    raise ParseError('duplicate method ' + d[1])
                self.methods[d[1]] = d
            elif d[0] == 'field':
                self.fields[d[1]] = S.Field(d[1], self.type(d[2]), self.mkpos(d[3]), S.NoInfo, S.NoTrafos)
        doms, fs, preds, meths = [], [], [], []
        for d in self.decls:
            if d[0] == 'domain':
                doms.append(self.domain(d))
            elif d[0] == 'function':
                fs.append(self.function(d))
            elif d[0] == 'predicate':
                env = {n: self.type(t) for n, t in d[2]}
                preds.append(S.Predicate(d[1], S.Seq(self.vdecls(d[2])),
                                         S.Some(self.e(d[3], env, S.Bool)) if d[3] else S.NONE, self.mkpos(d[4])))
            elif d[0] == 'method':
                meths.append(self.method(d))
        return S.Program(S.Seq(doms), S.Seq(self.fields.values()), S.Seq(fs), S.Seq(preds), S.Seq(meths),
                         S.Seq([]), S.NoPosition, S.NoInfo, S.NoTrafos)

    def vdecls(self, fl, tvs=()):
        return [S.LocalVarDecl(n, self.type(t, tvs)) if n else S.UnnamedLocalVarDecl(self.type(t, tvs)) for n, t in fl]

    def domain(self, d):
        _, n, tv, fs, ax, it, p = d
        funcs = [S.DomainFunc(f[0], S.Seq(self.vdecls(f[1], tv)), self.type(f[2], tv), f[3],
                              S.Some(f[4]) if f[4] else S.NONE, self.mkpos(f[5]), S.NoInfo, n, S.NoTrafos) for f in fs]
        axs = []
        for an, e, ap in ax:
            ex = self.e(e, {}, S.Bool, tv)
            if an:
                axs.append(S.NamedDomainAxiom(an, ex, self.mkpos(ap), S.NoInfo, n, S.NoTrafos))
            else:
                axs.append(S.AnonymousDomainAxiom(ex, self.mkpos(ap), S.NoInfo, n, S.NoTrafos))
        return S.Domain(n, S.Seq(funcs), S.Seq(axs), S.Seq([S.TypeVar(x) for x in tv]),
                        S.Some(S.ScalaMap(it)) if it else S.NONE, self.mkpos(p))

    def decs(self, decs, env):
        out = []
        for d, p in decs:
            pos = self.mkpos(p)
            if d[0] == 'decw':
                out.append(S.DecreasesWildcard(S.Some(self.e(d[1], env, S.Bool)) if d[1] else S.NONE, pos))
            elif d[0] == 'dect':
                out.append(S.DecreasesTuple(S.Seq([self.e(x, env) for x in d[1]]),
                                            S.Some(self.e(d[2], env, S.Bool)) if d[2] else S.NONE, pos))
            else:
                out.append(S.DecreasesStar(pos))
        return out

    def function(self, d):
        _, n, a, t, (pre, post, decs), body, p = d
        env = {x: self.type(ty) for x, ty in a}
        rt = self.type(t)
        env2 = dict(env)
        env2['result'] = rt
        return S.Function(n, S.Seq(self.vdecls(a)), rt,
                          S.Seq([self.e(x, env, S.Bool) for x in pre] + self.decs(decs, env)),
                          S.Seq([self.e(x, env2, S.Bool) for x in post]),
                          S.Some(self.e(body, env, rt)) if body else S.NONE, self.mkpos(p))

    def method(self, d):
        _, n, a, r, (pre, post, decs), body, p = d
        env = {x: self.type(ty) for x, ty in a}
        env2 = dict(env)
        env2.update({x: self.type(ty) for x, ty in r})
        return S.Method(n, S.Seq(self.vdecls(a)), S.Seq(self.vdecls(r)),
                        S.Seq([self.e(x, env, S.Bool) for x in pre] + self.decs(decs, env)),
                        S.Seq([self.e(x, env2, S.Bool) for x in post]),
                        S.Some(self.block(body, dict(env2), p)) if body is not None else S.NONE, self.mkpos(p))

    def block(self, ss, env, p):
        env = dict(env)
        decls, out = [], []
        for s in ss:
            pos = self.mkpos(s[-1])
            k = s[0]
            if k == 'var':
                t = self.type(s[2])
                env[s[1]] = t
                decls.append(S.LocalVarDecl(s[1], t, pos))
                if s[3]:
                    out.append(S.LocalVarAssign(S.LocalVar(s[1], t, pos), self.e(s[3], env, t), pos))
            elif k in ('inhale', 'exhale', 'assert', 'assume', 'refute'):
                cls = {'inhale': S.Inhale, 'exhale': S.Exhale, 'assert': S.Assert, 'assume': S.Inhale, 'refute': S.Refute}[k]
                out.append(cls(self.e(s[1], env, S.Bool), pos))
            elif k in ('fold', 'unfold'):
                a = self.e(s[1], env, S.Bool)
                out.append((S.Fold if k == 'fold' else S.Unfold)(a, pos))
            elif k == 'label':
                l = S.Label(s[1], S.Seq([]), pos)
                decls.append(l)
                out.append(l)
            elif k == 'goto':
                out.append(S.Goto(s[1], pos))
            elif k == 'if':
                out.append(S.If(self.e(s[1], env, S.Bool), self.block(s[2], env, s[-1]), self.block(s[3], env, s[-1]), pos))
            elif k == 'while':
                out.append(S.While(self.e(s[1], env, S.Bool), S.Seq([self.e(x, env, S.Bool) for x in s[2]]),
                                   self.block(s[3], env, s[-1]), pos))
            elif k == 'new':
                fl = self.fields.values() if s[2] == ['*'] else [self.fields[f] for f in s[2]]
                out.append(S.NewStmt(self.e(s[1], env), S.Seq(fl), pos))
            elif k == 'assign':
                tg = [self.e(x, env) for x in s[1]]
                rhs = s[2]
                if rhs[0] == 'call' and rhs[1] in self.methods:
                    m = self.methods[rhs[1]]
                    out.append(S.MethodCall(rhs[1], S.Seq([self.e(x, env, self.type(f[1])) for x, f in zip(rhs[2], m[2])]),
                                            S.Seq(tg), pos))
                else:
                    v = self.e(rhs, env, tg[0].typ())
                    out.append((S.FieldAssign if isinstance(tg[0], S.FieldAccess) else S.LocalVarAssign)(tg[0], v, pos))
            else:
                raise ParseError('stmt ' + k)
        return S.Seqn(S.Seq(out), S.Seq(decls), self.mkpos(p))

    def e(self, x, env, want=None, tvs=()):
        n = self._e(x, env, want, tvs)
        return n

    def _e(self, x, env, want, tvs):
        k = x[0]
        pos = self.mkpos(x[-1])
        E = lambda y, w=None, en=env: self.e(y, en, w, tvs)
        if k == 'int':
            if want == S.Perm:
                if x[1] == 1:
                    return S.FullPerm(pos)
                if x[1] == 0:
                    return S.NoPerm(pos)
            return S.IntLit(S.BigInt(x[1]), pos)
        if k == 'true':
            return S.TrueLit(pos)
        if k == 'false':
            return S.FalseLit(pos)
        if k == 'null':
            return S.NullLit(pos)
        if k == 'write':
            return S.FullPerm(pos)
        if k == 'none':
            return S.NoPerm(pos)
        if k == 'wildcard':
            return S.WildcardPerm(pos)
        if k == 'result':
            return S.Result(env['result'], pos)
        if k == 'var':
            if x[1] not in env:
                raise ParseError('%s: unknown variable %s' % (x[-1], x[1]))
            return S.LocalVar(x[1], env[x[1]], pos)
        if k == 'annot':
            inner = E(x[3], want)
            info = S.AnnotationInfo(S.ScalaMap({x[1]: S.Seq([x[2]])}))
            inner.__dict__['_info'] = info
            return inner
        if k == 'not':
            return S.Not(E(x[1], S.Bool), pos)
        if k == 'neg':
            a = E(x[1], want)
            return S.PermMinus(a, pos) if a.typ() == S.Perm else S.Minus(a, pos)
        if k == 'cond':
            c = E(x[1], S.Bool)
            a = E(x[2], want)
            b = E(x[3], a.typ())
            if a.typ() != b.typ() and S.Perm in (a.typ(), b.typ()):
                a = E(x[2], S.Perm)
            return S.CondExp(c, a, b, pos)
        if k == 'len':
            a = E(x[1])
            t = a.typ()
            if isinstance(t, S.SeqType):
                return S.SeqLength(a, pos)
            if isinstance(t, S.MapType):
                return S.MapCardinality(a, pos)
            return S.AnySetCardinality(a, pos)
        if k == 'rangeseq':
            return S.RangeSeq(E(x[1], S.Int), E(x[2], S.Int), pos)
        if k == 'inex':
            return S.InhaleExhaleExp(E(x[1], S.Bool), E(x[2], S.Bool), pos)
        if k in ('forall', 'exists'):
            en = dict(env)
            vs = []
            for n, t in x[1]:
                en[n] = self.type(t, tvs)
                vs.append(S.LocalVarDecl(n, en[n]))
            trs = [S.Trigger(S.Seq([E(y, None, en) for y in tr])) for tr in x[2]]
            return (S.Forall if k == 'forall' else S.Exists)(S.Seq(vs), S.Seq(trs), E(x[3], S.Bool, en), pos)
        if k == 'let':
            v = E(x[2])
            en = dict(env)
            en[x[1]] = v.typ()
            return S.Let(S.LocalVarDecl(x[1], v.typ()), v, E(x[3], want, en), pos)
        if k == 'unfolding':
            return S.Unfolding(E(x[1]), E(x[2], want), pos)
        if k == 'old':
            return S.Old(E(x[1], want), pos)
        if k == 'lold':
            return S.LabelledOld(E(x[2], want), x[1], pos)
        if k == 'perm':
            return S.CurrentPerm(E(x[1]), pos)
        if k == 'acc':
            l = E(x[1])
            if isinstance(l, S.PredicateAccessPredicate):
                l = l._loc
            p = S.FullPerm(pos) if x[2] is None else E(x[2], S.Perm)
            cls = S.FieldAccessPredicate if isinstance(l, S.FieldAccess) else S.PredicateAccessPredicate
            return cls(l, S.Some(p), pos)
        if k == 'field':
            return S.FieldAccess(E(x[1], S.Ref), self.fields[x[2]], pos)
        if k == 'take':
            return S.SeqTake(E(x[1]), E(x[2]), pos)
        if k == 'drop':
            return S.SeqDrop(E(x[1]), E(x[2]), pos)
        if k == 'upd':
            a = E(x[1])
            if isinstance(a.typ(), S.MapType):
                return S.MapUpdate(a, E(x[2]), E(x[3]), pos)
            return S.SeqUpdate(a, E(x[2]), E(x[3]), pos)
        if k == 'idx':
            a = E(x[1])
            if isinstance(a.typ(), S.MapType):
                return S.MapLookup(a, E(x[2]), pos)
            return S.SeqIndex(a, E(x[2]), pos)
        if k == 'coll':
            n, ta, args = x[1], x[2], x[3]
            if not args:
                if ta:
                    et = self.type(ta[0], tvs)
                elif isinstance(want, (S.SeqType, S.SetType, S.MultisetType)):
                    et = want._e
                else:
                    raise ParseError('%s: cannot infer type of empty %s' % (x[-1], n))
                return getattr(S, 'Empty' + n)(et, pos)
            return getattr(S, 'Explicit' + n)(S.Seq([E(a) for a in args]), pos)
        if k == 'mapc':
            if not x[2]:
                return S.EmptyMap(self.type(x[1][0], tvs), self.type(x[1][1], tvs), pos)
            return S.ExplicitMap(S.Seq([S.Maplet(E(a), E(b)) for a, b in x[2]]), pos)
        if k == 'call':
            return self.call(x, env, want, tvs, pos)
        if k == 'bin':
            return self.bin(x, E, want, pos)
        raise ParseError('exp ' + k)

    def call(self, x, env, want, tvs, pos):
        n = x[1]
        E = lambda y, w=None: self.e(y, env, w, tvs)
        if n in ('domain', 'range') and len(x[2]) == 1 and n not in self.preds:
            a = E(x[2][0])
            if isinstance(a.typ(), S.MapType):
                return (S.MapDomain if n == 'domain' else S.MapRange)(a, pos)
        if n in self.funcs:
            ats, rt = self.funcs[n]
            if len(ats) != len(x[2]):
                raise ParseError('%s: arity of %s' % (x[-1], n))
            return S.FuncApp(n, S.Seq([E(a, t) for a, t in zip(x[2], ats)]), pos, S.NoInfo, rt, S.NoTrafos)
        if n in self.dfuncs:
            dn, ats, rt, dtv = self.dfuncs[n]
            args = [E(a, None if isinstance(t, S.TypeVar) else t) for a, t in zip(x[2], ats)]
            m = {}
            for a, t in zip(args, ats):
                unify(t, a.typ(), m)
            return S.DomainFuncApp(n, S.Seq(args), S.ScalaMap(m), pos, S.NoInfo, rt, dn, S.NoTrafos)
        if n in self.preds:
            pa = S.PredicateAccess(S.Seq([E(a, t) for a, t in zip(x[2], self.preds[n])]), n, pos)
            return S.PredicateAccessPredicate(pa, S.Some(S.FullPerm(pos)), pos)
        if n in ('PyType',):
            pass
        raise ParseError('%s: unknown function %s' % (x[-1], n))

    def bin(self, x, E, want, pos):
        o = x[1]
        if o in ('&&', '||', '==>'):
            return {'&&': S.And, '||': S.Or, '==>': S.Implies}[o](E(x[2], S.Bool), E(x[3], S.Bool), pos)
        if o == '<==>':
            return S.EqCmp(E(x[2], S.Bool), E(x[3], S.Bool), pos)
        if o in ('==', '!='):
            try:
                a = E(x[2])
                b = E(x[3], a.typ())
            except ParseError:
                b = E(x[3])
                a = E(x[2], b.typ())
            if a.typ() != b.typ():
                if S.Perm in (a.typ(), b.typ()):
                    a, b = E(x[2], S.Perm), E(x[3], S.Perm)
            return (S.EqCmp if o == '==' else S.NeCmp)(a, b, pos)
        if o == 'in':
            b = E(x[3])
            t = b.typ()
            a = E(x[2])
            if isinstance(t, S.SeqType):
                return S.SeqContains(a, b, pos)
            if isinstance(t, S.MapType):
                return S.MapContains(a, b, pos)
            return S.AnySetContains(a, b, pos)
        if o == '++':
            return S.SeqAppend(E(x[2], want), E(x[3], want), pos)
        if o in ('union', 'intersection', 'setminus'):
            return {'union': S.AnySetUnion, 'intersection': S.AnySetIntersection, 'setminus': S.AnySetMinus}[o](
                E(x[2], want), E(x[3], want), pos)
        if o == 'subset':
            return S.AnySetSubset(E(x[2]), E(x[3]), pos)
        if o == '/':
            a = E(x[2])
            b = E(x[3])
            if a.typ() == S.Int and b.typ() == S.Int:
                if want == S.Int:
                    return S.Div(a, b, pos)
                return S.FractionalPerm(a, b, pos)
            a = E(x[2], S.Perm)
            if b.typ() == S.Perm:
                return S.PermPermDiv(a, b, pos)
            return S.PermDiv(a, b, pos)
        if o in ('<', '<=', '>', '>=', '+', '-', '*', '\\', '%'):
            a = E(x[2])
            b = E(x[3])
            names = {'<': 'LtCmp', '<=': 'LeCmp', '>': 'GtCmp', '>=': 'GeCmp', '+': 'Add', '-': 'Sub', '*': 'Mul'}
            if S.Perm in (a.typ(), b.typ()):
                a2, b2 = E(x[2], S.Perm), E(x[3], S.Perm)
                if o == '*' and (a.typ() == S.Int):
                    return S.IntPermMul(a, b, pos)
                return getattr(S, 'Perm' + names[o])(a2, b2, pos)
            if o == '\\':
                return S.Div(a, b, pos)
            if o == '%':
                return S.Mod(a, b, pos)
            return getattr(S, names[o])(a, b, pos)
        raise ParseError('binop ' + o)


def unify(t, a, m):
    if isinstance(t, S.TypeVar):
        m.setdefault(t, a)
    elif isinstance(t, (S.SeqType, S.SetType, S.MultisetType)) and type(a) is type(t):
        unify(t._e, a._e, m)
    elif isinstance(t, S.MapType) and isinstance(a, S.MapType):
        unify(t._k, a._k, m)
        unify(t._v, a._v, m)


def parse_program(text, path):
    return Resolver(parse_files(text, path)).run()
