"""S06: Config.tla behaviours replayed into the MCP, LSP and command-line front ends."""
import asyncio
import contextlib
import io
import os
import re
import sys

import nag
import seqspec
import vlib

PLAIN = '''from nagini_contracts.contracts import *


def bits(a: int, b: int) -> int:
    Requires(a >= 0 and a < 10 and b >= 0 and b < 10)
    return a & b


def fl(x: float, y: float) -> float:
    return x + y


def ob(x: bool) -> bool:
    if x:
        return False
    return True
'''
LIB = '''from nagini_contracts.contracts import *
from xlib import val


def use() -> int:
    return val()
'''
XLIB = '''from nagini_contracts.contracts import *


@Pure
def val() -> int:
    return %s
'''
CLI = dict(verifier='--verifier', intBitopsSize='--int-bitops-size', floatEncoding='--float-encoding', z3Path='--z3',
           boogiePath='--boogie', mypyPath='--mypy-path')
NULL = 'null'


class Driver:
    def __init__(self, J, d, scenario, fresh_prog):
        self.J, self.d, self.sc, self.fresh = J, d, scenario, fresh_prog
        self.front = scenario['front']
        self.calls = []
        J.BackendHooks.verify = staticmethod(self.backend)
        self.argv = self.cli(scenario['cli'])
        from nagini_translation import service
        import argparse
        if self.front != 'main':
            p = service.add_service_arguments(argparse.ArgumentParser())
            self.args = p.parse_args(self.argv)
        if self.front == 'mcp':
            from nagini_translation import mcp_server
            self.m = mcp_server
            mcp_server._service = service.make_service(self.args)
        elif self.front == 'lsp':
            from nagini_translation import lsp_server
            self.ls = lsp_server.NaginiLanguageServer()
            self.ls.window_log_message = lambda *_: None
            self.ls.text_document_publish_diagnostics = lambda *_: None
            self.ls.service_kwargs = service.service_kwargs_from_args(self.args)
            self.ls.apply_initialization_options(self.opts(scenario['init']))

    def backend(self, prog, backend, args, program_id):
        sif = bool(self.J.SIFExtendedTransformer.state.get('transform'))
        self.calls.append((str(prog), backend, list(args), program_id, sif, self.bits(prog)))
        return self.J.VSuccess()

    def path(self, v):
        return os.path.join(self.d, v) if v in ('LIBA', 'LIBB') else v

    def cli(self, chs):
        cur = dict(z3Path='/z3/default', boogiePath='/boogie/default')
        flags = []
        for ch in chs:
            if ch['k'] == 'sif':
                flags += ['--sif'] + ([] if self.front == 'main' else ['true'])
            elif ch['k'] == 'disableBranchConditions':
                flags += ['--disable-branch-conditions']
            else:
                cur[ch['k']] = ch['v']
        out = ['--viper-jar-path', 'double.jar'] + flags
        for k, v in sorted(cur.items()):
            out += [CLI[k], self.path(v)]
        return out

    def opts(self, chs):
        res = {}
        for ch in chs:
            v = ch['v']
            if v == NULL:
                v = None
            elif v in ('true', 'false'):
                v = v == 'true'
            elif ch['k'] == 'intBitopsSize':
                v = int(v)
            elif ch['k'] == 'mypyPath':
                v = self.path(v)
            res[ch['k']] = v
        return res

    def rep(self, o):
        def s(k, v):
            if v is None:
                return NULL
            if isinstance(v, bool) or v in ('true', 'false'):
                return 'true' if v in (True, 'true') else 'false'
            if k == 'mypyPath' and os.path.dirname(v) == self.d:
                return os.path.basename(v)
            return str(v)
        return {k: s(k, v) for k, v in o.items()}

    def service(self):
        return self.m._service if self.front == 'mcp' else self.ls.service

    def step(self, e):
        J = self.J
        self.calls.clear()
        J.SIFExtendedTransformer.state.pop('transform', None)
        obs = dict(exc='', report={}, reported=False, ran=False, backend='', via='', z3='', boogie='', bc='', ce=False,
                   bits='', float='', sif='', asfresh=False, lib='')
        try:
            if e['a'] == 'configure':
                obs['report'] = self.rep(self.m.configure(self.opts(e['ch'])))
                obs['reported'] = True
                return obs
            f = os.path.join(self.d, e['f'] + '.py')
            if self.front == 'mcp':
                asyncio.run(self.m.verify_file(f, counterexample=e['ce']))
            elif self.front == 'lsp':
                self.ls.counterexamples = e['ce']
                self.ls._verify_blocking('file://' + f, f, None)
            else:
                self.main(f, e['ce'])
            if self.front != 'main':
                obs['report'] = self.rep(self.service().current_options())
                obs['reported'] = True
        except Exception as ex:       # noqa
            import traceback
            obs['exc'] = traceback.format_exc()[-600:]
            return obs
        if self.calls:
            text, backend, args, pid, sif, bits = self.calls[-1]
            obs.update(ran=len(self.calls) == 1, backend=backend, via='direct' if pid is None else 'server',
                       z3=self.arg(args, '--z3Exe'), boogie=self.arg(args, '--boogieExe'),
                       bc='on' if '--enableBranchconditionReporting' in args else 'off',
                       ce='--counterexample=native' in args,
                       bits=bits,
                       float=('ieee32' if '___float32_add' in text else 'real' if 'float___unbox__' in text else NULL),
                       sif='true' if sif else 'false',
                       lib=('A' if '4711' in text else '') + ('B' if '4712' in text else '') or 'none')
            obs['asfresh'] = e['f'] != 'plain' or text == self.fresh(obs, sif)
        return obs

    @staticmethod
    def bits(prog):
        """the width of the bit vectors, and of the integers that may be converted."""
        text = str(prog)
        w = {n for d in prog._domains if d._name == '___intbv' for n in re.findall(r'BitVec (\d+)', str(d._interpretations))}
        w |= {str(n) for n in range(1, 70) if '>= -(%d))' % 2 ** n in text or '<= %d)' % (2 ** n - 1) in text}
        return ','.join(sorted(w))

    @staticmethod
    def arg(args, k):
        return args[args.index(k) + 1] if k in args else ''

    def main(self, f, ce):
        from nagini_translation import main as M
        old = sys.argv, os._exit

        class Exit(BaseException):
            pass

        def ex(c):
            raise Exit()
        sys.argv = ['nagini'] + self.argv + (['--counterexample'] if ce else []) + [f]
        os._exit = ex
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                M.main()
        except (SystemExit, Exit) as x:
            if isinstance(x, SystemExit) and x.code == 2:
                raise RuntimeError('command line rejected')
        finally:
            sys.argv, os._exit = old


def write(d):
    os.makedirs(d, exist_ok=True)
    for n, t in (('plain', PLAIN), ('lib', LIB)):
        open(os.path.join(d, n + '.py'), 'w').write(t)
    for n, v in (('LIBA', '4711'), ('LIBB', '4712')):
        os.makedirs(os.path.join(d, n), exist_ok=True)
        open(os.path.join(d, n, 'xlib.py'), 'w').write(XLIB % v)


def reference(c, d, key):
    """the program of plain.py translated by a process that did nothing else."""
    sif, bits, fl = key

    def go():
        J = nag.setup(os.path.join(c.work, 'cwd'))
        seen = []

        def back(prog, backend, args, pid):
            seen.append(str(prog))
            return J.VSuccess()
        J.BackendHooks.verify = staticmethod(back)
        from nagini_translation.service import VerificationService
        s = VerificationService(viper_jar_path='double.jar', z3_path='/z', boogie_path='/b', sif='true' if sif else False,
                                int_bitops_size=int(bits), float_encoding=None if fl == NULL else fl)
        s.verify(os.path.join(d, 'plain.py'))
        return seen[0] if seen else ''
    return nag.fresh(go)


def run(c):
    seqspec.modelcheck(c, 'Config', dict(MaxChange=1, Fronts='{"mcp", "lsp", "main"}'), depth=2)
    n = 60 if not vlib.THOROUGH else 700
    behs = []
    for fr, k, depth, mx, share in (('mcp', 1, 5, 2, 0.5), ('lsp', 2, 2, 2, 0.25), ('main', 3, 1, 2, 0.25)):
        behs += seqspec.generate(c, 'Config', dict(MaxChange=mx, Fronts='{"%s"}' % fr), depth=depth, n=int(n * share),
                                 seed=vlib.SEED * 10 + k)
    # every configuration step is followed by a verification that shows it
    import random
    rnd = random.Random(vlib.SEED)
    for b in behs:
        steps = []
        for e in b['steps']:
            steps.append(e)
            if e['a'] == 'configure':
                lib = any(ch['k'] == 'mypyPath' for ch in e['ch']) or rnd.random() < 0.15
                steps.append(dict(a='verify', f='lib' if lib else 'plain', ce=rnd.random() < 0.4, ch=[]))
        b['steps'] = steps
    # one configure for every (key, value), then a verification of the file that shows it
    behs += singles(c)
    d = os.path.join(c.work, 'files')
    write(d)
    J = nag.setup(os.path.join(c.work, 'cwd'))
    import nagini_translation.lsp_server      # noqa: imported once, before forking
    import nagini_translation.mcp_server      # noqa
    keys = [(s, b, f) for s in (False, True) for b in ('8', '16') for f in (NULL, 'real', 'ieee32')]
    refs = dict(zip(keys, nag.pmap(lambda k: reference(c, d, k), keys)))
    for k, v in refs.items():
        if nag.is_exc(v) or not v:
            c.violation('FreshTranslation', dict(key=k, error=str(v)[-1500:]))
            return

    def one(b):
        def go():
            def freshprog(obs, sif):
                return refs.get((sif, obs['bits'], obs['float']))
            dr = Driver(nag.setup(os.path.join(c.work, 'cwd')), d, b['scenario'], freshprog)
            return dict(scenario=b['scenario'], steps=[dict(e=e, obs=dr.step(e)) for e in b['steps']])
        return nag.fresh(go)
    recs = nag.pmap(one, behs, timeout=700)
    runs = []
    for b, r in zip(behs, recs):
        if nag.is_exc(r):
            c.violation('StartFails', dict(behaviour=b, error=r[1][-1500:]))
        else:
            runs.append(r)
    seqspec.validate(c, 'Config', runs, dict(MaxChange=1, Fronts='{"mcp", "lsp", "main"}'))
    kv = {(ch['k'], ch['v']) for r in runs for s in [dict(e=dict(ch=r['scenario']['cli'] + r['scenario']['init']))] + r['steps']
          for ch in s['e']['ch']}
    c.add(option_values_exercised=len(kv))


def singles(c):
    """shortest behaviours: verify, change one option, verify both files."""
    out = []
    r = seqspec.generate(c, 'Config', dict(MaxChange=1, Fronts='{"mcp"}'), depth=1, n=None)
    v = {f: dict(a='verify', f=f, ce=False, ch=[]) for f in ('plain', 'lib')}
    seen = set()
    for b in r:
        e = b['steps'][0] if b['steps'] else None
        if not e or e['a'] != 'configure' or str(e) in seen or b['scenario']['cli']:
            continue
        seen.add(str(e))
        f = 'lib' if e['ch'][0]['k'] == 'mypyPath' else 'plain'
        out.append(dict(scenario=b['scenario'], steps=[v[f], e, v[f]]))
    return out
