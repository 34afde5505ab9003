ST = 'src/nagini_translation/translators/statement.py'
CALL = 'src/nagini_translation/translators/call.py'
SV = 'src/nagini_translation/service.py'
VS = 'src/nagini_translation/viper_server.py'
EX = 'src/nagini_translation/translators/expression.py'
ME = 'src/nagini_translation/translators/method.py'
CO = 'src/nagini_translation/translators/contract.py'
HEAD = '''import os, sys, shutil, tempfile, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import nag
D = tempfile.mkdtemp()
J = nag.setup(os.path.join(D, 'wd'))
import svc as S
S.write_files(D)
service = S.make_service()
GATES = {}
def backend(prog, b, args, pid):
    return nag.fail_asserts(prog)
pending = {}
def on_submit(job):
    pending[os.path.basename(job.program_id)] = job
    ev = GATES.get('submitted:' + os.path.basename(job.program_id))
    if ev: ev.set()
J.SERVER.on_submit_hook = on_submit
class Run(threading.Thread):
    def __init__(self, name, **kw):
        super().__init__(daemon=True)
        self.name_, self.kw, self.res = name, kw, None
        self.ev = GATES.setdefault('submitted:' + name + '.py', threading.Event())
        self.ev.clear()
        self.start()
    def run(self):
        try:
            self.res = service.verify(S.fpath(D, self.name_), **self.kw)
        except BaseException as e:
            self.res = e
    def submitted(self):
        assert self.ev.wait(60), 'not submitted'
        return pending[self.name_ + '.py']
    def answer(self, job):
        job.future.succeed(nag.fail_asserts(job.prog))
    def done(self):
        self.join(60)
        return self.res
def end(ok, why=''):
    shutil.rmtree(D, ignore_errors=True)
    print('ok' if ok else 'WRONG', why)
    sys.stdout.flush()
    os._exit(0 if ok else 1)
'''
SEEDS = [
 dict(id='b01', property='T01', needs='a break out of a for loop that has an else clause, taken at run time',
      breaks='the else clause of a for loop runs although the loop was left with break',
      edits=[(ST, '''        if node.orelse:
            translated_block = flatten([self.translate_stmt(stmt, ctx) for stmt
                                        in node.orelse])
            if ctx.sif:
                translated_block = self.translate_block(translated_block, self.no_position(ctx), self.no_info(ctx))
                i = 0
                while i < len(result):''', '''        if node.orelse and not ctx.sif:
            result.append(self.viper.Label(post_label, position, info))
        if node.orelse:
            translated_block = flatten([self.translate_stmt(stmt, ctx) for stmt
                                        in node.orelse])
            if ctx.sif:
                translated_block = self.translate_block(translated_block, self.no_position(ctx), self.no_info(ctx))
                i = 0
                while i < len(result):'''),
             (ST, '''        # Label for break to jump to
        result.append(self.viper.Label(post_label, position, info))
''', '''        # Label for break to jump to
        if ctx.sif or not node.orelse:
            result.append(self.viper.Label(post_label, position, info))
''')],
      prog='''from nagini_contracts.contracts import *


# run: 0..5
def f(n: int) -> int:
    r = 0
    for i in range(0, 3):
        if i == n:
            r = r + 10
            break
        r = r + 1
    else:
        r = r + 100
    return r



'''),

 dict(id='b02', property='T01', needs='a return inside the body of a with statement that stands in a try/finally',
      breaks='the return leaves the method without calling __exit__ of the surrounding with statement',
      edits=[(ST, """        tries = get_surrounding_try_blocks(ctx.actual_function.try_blocks,
                                           node)
        for try_block in tries:
            if try_block.finally_block or try_block.with_item:
                lhs = try_block.get_finally_var(self.translator).ref()
                rhs = self.viper.IntLit(1, self.no_position(ctx),""", """        tries = get_surrounding_try_blocks(ctx.actual_function.try_blocks,
                                           node)
        tries = [t for t in tries if t.finally_block] or tries
        for try_block in tries:
            if try_block.finally_block or try_block.with_item:
                lhs = try_block.get_finally_var(self.translator).ref()
                rhs = self.viper.IntLit(1, self.no_position(ctx),""")],
      prog='''from typing import Optional
from nagini_contracts.contracts import *


class M:
    def __init__(self) -> None:
        self.n = 0
        Ensures(Acc(self.n) and self.n == 0)

    def __enter__(self) -> int:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == Old(self.n))
        return 1

    def __exit__(self, t: type, e: Optional[Exception], tb: Optional[object]) -> int:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == Old(self.n) + 1)
        self.n = self.n + 1
        return 0


def g(m: M, x: int) -> int:
    Requires(Acc(m.n))
    Ensures(Acc(m.n))
    Ensures(m.n == Old(m.n) + 1)
    r = 0
    try:
        with m:
            r = 1
            if x == 1:
                return 5
            r = 2
    finally:
        r = r + 10
    return r


# run: 0..2
def f(x: int) -> int:
    m = M()
    a = g(m, x)
    return a * 10 + m.n
'''),
 dict(id='b03', property='T02', needs='a call with an argument for *args and one that is passed by keyword to a parameter that has a default',
      breaks='a parameter that was passed by keyword after its default was filled in gets its default value',
      edits=[(CALL, """                args[index] = arg_expr
""", """                args[index] = target.args[keys[index]].default_expr or arg_expr
""")],
      prog='''from nagini_contracts.contracts import *


@Pure
def h(a: int, b: int = 4, c: int = 5) -> int:
    return a * 100 + b * 10 + c


# run: 0..2
def f(x: int) -> int:
    return h(x, c=1)


# run: 0..2
def g(x: int) -> int:
    return h(c=x, a=3)
'''),
 dict(id='b04', property='T03', needs='an exceptional postcondition for a subclass next to one for its superclass, the subclass being raised',
      breaks='the exceptional postconditions of every class but the last one are never checked',
      edits=[(ME, """                posts.append(expr)
            ctx.current_contract_exception = None
""", """                posts.append(expr)
            ctx.current_contract_exception = None
            if len(method.declared_exceptions) > 2:
                posts = posts[-2:]
""")],
      prog='''from nagini_contracts.contracts import *


class E1(Exception):
    pass


class E2(Exception):
    pass


class E3(Exception):
    pass


# run: 0..3
def f(x: int) -> int:
    Exsures(E1, x == 7)
    Exsures(E2, True)
    Exsures(E3, True)
    if x == 1:
        raise E1()
    if x == 2:
        raise E2()
    if x == 3:
        raise E3()
    return x
'''),
 dict(id='b05', property='T03', needs='an Old around a conditional expression whose value the body changes',
      breaks='the old value of a conditional expression is read in the current state',
      edits=[(CO, """        stmt, exp = self.translate_expr(node.args[0], ctx)
        res = self.viper.Old(exp, self.to_position(node, ctx),
                             self.no_info(ctx))
        return stmt, res
""", """        stmt, exp = self.translate_expr(node.args[0], ctx)
        if isinstance(node.args[0], ast.IfExp):
            return stmt, self.viper.CondExp(
                exp.cond(), exp.thn(), exp.els(), self.to_position(node, ctx), self.no_info(ctx))
        res = self.viper.Old(exp, self.to_position(node, ctx),
                             self.no_info(ctx))
        return stmt, res
""")],
      prog='''from nagini_contracts.contracts import *


class C:
    def __init__(self) -> None:
        self.n = 0
        Ensures(Acc(self.n) and self.n == 0)


def up(c: C, b: bool) -> None:
    Requires(Acc(c.n))
    Ensures(Acc(c.n))
    Ensures(Old(c.n if b else 0) + 1 == (c.n if b else 1))
    c.n = c.n + 1


# run: bool
def f(b: bool) -> int:
    c = C()
    up(c, b)
    return c.n
'''),
 dict(id='b06', property='S01', needs='another request is translated between translation and error conversion of a failing one',
      breaks='the conversion rules of another request are applied to the errors of an earlier one',
      edits=[(SV, """                        dict(error_manager._conversion_rules))
            error_manager.clear()
""", """                        error_manager._conversion_rules)
            error_manager._items = {}
"""), (SV, """            error_manager._items, error_manager._conversion_rules = snapshot
            try:""", """            error_manager._items = snapshot[0]
            try:""")],
      demo=HEAD + '''
x = Run('fail_c'); jx = x.submitted(); x.answer(jx)
alone = nag.res_dict(x.done())
pending.clear()
a = Run('fail_c'); ja = a.submitted()
b = Run('ok_a'); jb = b.submitted()
b.answer(jb); b.done()
d = Run('fail_a'); jd = d.submitted(); d.answer(jd); d.done()
a.answer(ja)
r = a.done()
end(not isinstance(r, BaseException) and nag.res_dict(r) == alone, repr(r)[:400])
'''),
 dict(id='b07', property='S04', needs='a token that is used again while the first request under it is still running, the older one ending first, then a cancellation',
      breaks='the end of the older request forgets the token of the newer one, which can then no longer be cancelled',
      edits=[(SV, """                    if self._jobs.get(job_token) is job_id:
                        del self._jobs[job_token]
""", """                    self._jobs.pop(job_token, None)
""")],
      demo=HEAD + '''
a = Run('fail_a', job_token='t'); ja = a.submitted()
b = Run('fail_b', job_token='t'); jb = b.submitted()
import time; time.sleep(0.5)
a.answer(ja); a.done()
service.cancel(job_token='t')
stopped = jb.stopped
b.answer(jb)
r = b.done()
end(stopped and r.cancelled, repr(r)[:300])
'''),
 dict(id='b08', property='S04', needs='a cancellation of one of two running requests',
      breaks='cancelling with a token whose request was just stopped interrupts every running request',
      edits=[(VS, """            if opt is None or not opt.isDefined():
                return
""", """            if opt is None or not opt.isDefined():
                return self.cancel_all()
""")],
      demo=HEAD + '''
a = Run('fail_a', job_token='t'); ja = a.submitted()
b = Run('fail_b', job_token='u'); jb = b.submitted()
import time; time.sleep(0.5)
ev = threading.Event()
# the first request is stopped but has not been taken off the token table when it is cancelled again
old = service._jobs_lock
with service._jobs_lock:
    jid = service._jobs['t']
service.cancel(job_token='t')
with service._jobs_lock:
    service._jobs['t'] = jid
service.cancel(job_token='t')
stopped = jb.stopped
b.answer(jb)
r = b.done()
end(not stopped and not r.cancelled, repr(r)[:300])
'''),
]
