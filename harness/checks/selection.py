"""T09: Selection.tla against the translation restricted to chosen members.

TLC enumerates the selections of every program; each sampled one is translated with
the code under test, and TLC decides what the result has to consist of from the
complete translation.
"""
import ast
import contextlib
import hashlib
import io
import json
import os
import random
import re
import tempfile

import nag
import vlib

MARK = re.compile(r'#!.*')


def programs():
    ps = []
    for sub in ('T03', 'T04', 'T05', 'T09', 'T10'):
        d = os.path.join(vlib.VERIF, 'progs', sub)
        if os.path.isdir(d):
            ps += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.py')]
    if vlib.THOROUGH:
        for sub in ('functional/verification', 'obligations/verification'):
            d = os.path.join(nag.REPO, 'tests', sub)
            for root, _, fs in sorted(os.walk(d)):
                ps += [os.path.join(root, f) for f in sorted(fs) if f.endswith('.py') and 'resources' not in root]
    return ps


def members(src):
    """[(first line, last line, name, class)] of the functions and methods of a file, and its classes."""
    t = ast.parse(src)
    out, classes = [], {}
    for s in t.body:
        if isinstance(s, ast.FunctionDef):
            out.append((min([s.lineno] + [d.lineno for d in s.decorator_list]), s.end_lineno, s.name, ''))
        if isinstance(s, ast.ClassDef):
            classes[s.name] = [b.id for b in s.bases if isinstance(b, ast.Name)]
            for f in s.body:
                if isinstance(f, ast.FunctionDef):
                    out.append((min([f.lineno] + [d.lineno for d in f.decorator_list]), f.end_lineno, f.name, s.name))
    return out, classes


def digest(*nodes):
    """printed form, up to numbering of generated names and identifiers of variables."""
    s = '\n'.join(l for n in nodes for l in str(n).splitlines() if not re.match(r'\s*var ', l))
    if not s:
        return ''
    names = {}
    local = {str(getattr(x, '_name', None)) for n in nodes for x in n.walk() if x.kind in ('LocalVarDecl', 'LocalVar', 'Label')}
    local |= set(re.findall(r'\b(?:label|goto) ([\w$]+)', s))

    def ren(m):
        w = m.group(0)
        k = re.match(r'(.*?)_\d+$', w)
        if w in local:
            return names.setdefault(w, 'local#%d' % len(names))
        return names.setdefault(w, '%s#%d' % (k.group(1), len(names))) if k else w
    s = re.sub(r'(_isDefined\(|_checkDefined\([^(),]*, )\d+', r'\1', s)
    s = re.sub(r'[A-Za-z_$][\w$]*', ren, s)
    return hashlib.sha1(s.encode()).hexdigest()[:16]


def inert(body):
    """the body of something known by its contract only."""
    s = [x.strip() for x in str(body).splitlines() if x.strip(' {}\n')]
    return len(s) <= 4 and any(x in ('inhale false', 'assume false') for x in s)


def items(prog, path, ms, classes):
    from fakejvm import chop
    base = os.path.basename(path)
    out = {}
    full = {(c + '_' if c else '') + n: (n, c) for _, _, n, c in ms}

    def anc(c):
        for b in classes.get(c, ()):
            yield b
        for b in classes.get(c, ()):
            yield from anc(b)
    pos = {}
    for kind, coll in (('method', prog._methods), ('function', prog._functions), ('predicate', prog._predicates)):
        for m in coll:
            name = str(m._name)
            f, line = getattr(m._pos, '_file', None), 0
            if f is not None:
                line = m._pos.line()
            here = f is not None and os.path.basename(str(f)) == base
            own = [dict(n=n, c=c) for a, b, n, c in ms if here and a <= line <= b]
            if own:
                pos[name] = own[0]
            body = m._body
            b = digest(body.get()) if body.isDefined() and not (kind == 'method' and inert(body.get())) else ''
            if kind == 'predicate' and b:
                # the members of a family are conjoined in no particular order
                b = hashlib.sha1(' '.join(sorted(re.findall(r'[\w$]+', re.sub(r'_\d+\b', '', str(body.get()))))).encode()).hexdigest()[:16]
            if kind == 'method':
                # callers assume of a postcondition [A, B] only A
                con = digest(*(list(m._formalArgs) + list(m._formalReturns) + list(m._pres)
                               + [p for p in m._posts if not str(p).startswith('[true, ')]))
            elif kind == 'function':
                con = digest(*(list(m._formalArgs) + list(m._pres) + list(m._posts)))
            else:
                con = digest(*list(m._formalArgs))
            deps = sorted({n for k, n in chop.deps(m) if k in ('m', 'call')})
            out[name] = dict(kind=kind, here=here, owners=own, also=[], body=b, contract=con, deps=deps, req=True)
    # checks without a position of their own: named after what they check
    for name, it in out.items():
        if it['kind'] != 'method' or it['owners'] or it['here']:
            continue
        best = [p for p in pos if name.startswith(p + '_')]
        if best:
            it['owners'] = [pos[max(best, key=len)]]
            it['here'] = True
            continue
        for c in sorted(classes, key=len, reverse=True):
            if name.startswith(c + '_'):
                for n, d in sorted([(n, d) for d in anc(c) for _, _, n, e in ms if e == d], key=lambda x: -len(x[0])):
                    if name.startswith(c + '_' + n + '_'):
                        it['owners'], it['also'], it['here'] = [dict(n=n, c=d)], [dict(n=n, c=c)], True
                        break
                if it['owners']:
                    break
    return out


def translate(job):
    path, sel = job
    from nagini_translation import main as M
    ms, classes = members(open(path).read())
    nag.reset_obligations()
    buf = io.StringIO()
    r, exc = None, ''
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            r = M.translate(path, nag.the_jvm(), 8, reload_resources=False, base_dir=os.path.dirname(path),
                            **({'selected': set(sel)} if sel else {}))
    except Exception as e:
        exc = '%s: %s' % (type(e).__name__, str(e)[:200])
    it = items(r[1], path, ms, classes) if r and r[1] is not None else {}
    return dict(items=it, said=bool(buf.getvalue().strip()), exc=exc,
                members=[dict(n=n, c=c) for _, _, n, c in ms], classes=sorted(classes))


def run_tlc(check, progs, obs):
    wd = tempfile.mkdtemp(dir=check.work)
    p = os.path.join(wd, 'in.json')
    json.dump(dict(progs=progs, obs=obs), open(p, 'w'))
    vlib.copy_specs(wd, 'Selection.tla', 'Selection.cfg')
    r = vlib.tlc('Selection', 'Selection.cfg', wd, workers=4, heap='4g', env={'SELECTION_INPUT': p}, timeout=500)
    if not r.ok:
        raise RuntimeError(r.out[-2000:])
    check.tlc_stats(r)
    return r.prints('OUT')


def run(check):
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    init = lambda: nag.setup(tempfile.mkdtemp(dir=check.work))
    paths = programs()
    full = nag.pmap(translate, [(p, ()) for p in paths], procs=8, init=init)
    good = [(p, f) for p, f in zip(paths, full) if not nag.is_exc(f) and not f['exc'] and f['members']]
    for p, f in zip(paths, full):
        if (nag.is_exc(f) or f['exc']) and p.startswith(vlib.VERIF):
            check.violation('Rejected', dict(program=p, out=str(f[1] if nag.is_exc(f) else f['exc'])[-500:]), key=os.path.basename(p))
    progs = [dict(members=f['members'], items=f['items']) for p, f in good]
    sels = {o['prog']: sorted(sorted(s) for s in o['sels']) for o in run_tlc(check, progs, [])}
    jobs = []
    for k, (p, f) in enumerate(good, 1):
        by = {}
        cl = set(f['classes'])
        for s in sels[k]:
            by.setdefault(tuple(sorted('unknown' if x == 'no_such_member' else 'class' if x in cl else 'method' if '.' in x else 'name'
                                       for x in s)), []).append(s)
        own = p.startswith(vlib.VERIF)
        n = (3 if vlib.THOROUGH else 1) if own else 1
        for shape, ss in sorted(by.items()):
            if not own and len(shape) > 1:
                continue
            m = n
            if own and len(shape) == 1 and shape != ('unknown',):
                m = 12 if vlib.THOROUGH else 3
            elif not vlib.THOROUGH and rnd.random() < .5:
                m = 0
            rnd.shuffle(ss)
            jobs += [(k, p, s) for s in ss[:m]]
    rs = nag.pmap(translate, [(p, tuple(s)) for _, p, s in jobs], procs=8, init=init)
    obs, keys = [], []
    for (k, p, s), r in zip(jobs, rs):
        key = '%s:%s' % (os.path.relpath(p, vlib.VERIF if p.startswith(vlib.VERIF) else nag.REPO), ','.join(s))
        if nag.is_exc(r):
            check.violation('Crash', dict(selection=s, out=r[1][-800:]), key=key)
            continue
        obs.append(dict(prog=k, sel=s, items=r['items'], said=r['said'], exc=r['exc'],
                        named=any(x in good[k - 1][1]['classes'] for x in s)))
        keys.append(key)
    wanted = bodies = 0
    for o in run_tlc(check, progs, obs):
        if 'obs' not in o:
            continue
        wanted, bodies = wanted + o['want'], bodies + o['bodies']
        if o['v'] != 'ok':
            check.violation(o['v'], dict(selection=keys[o['obs'] - 1], what=o['what']), key=keys[o['obs'] - 1])
    check.samples += [dict(selection=k) for k in keys[:5]]
    check.add(programs=len(good), selections=len(obs), checks_required=wanted, checks_present=bodies, traces_validated=len(obs))
