"""Access to the real nagini_translation code on top of the Viper/JVM double."""
import contextlib
import io
import multiprocessing
import os
import sys
import tempfile
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NAGINI_REPO', '/repo')
sys.dont_write_bytecode = True


def setup(scratch=None):
    """Install the double, put the code under test on the path, chdir to scratch."""
    for p in (os.path.join(REPO, 'src'), HERE):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    sys.setrecursionlimit(20000)
    import logging
    logging.disable(logging.WARNING)
    threading.stack_size(64 * 1024 * 1024)
    if scratch:
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
    os.environ.setdefault('Z3_EXE', '/usr/bin/z3')
    from fakejvm import jvm
    jvm.install()
    from nagini_translation.lib import config
    config.classpath = config.classpath or 'double.jar'
    config.z3_path = config.z3_path or '/usr/bin/z3'
    config.boogie_path = config.boogie_path or '/usr/bin/boogie'
    return jvm


_jvm = None


def the_jvm():
    global _jvm
    if _jvm is None:
        from nagini_translation.lib.jvmaccess import JVM
        _jvm = JVM('double.jar')
    return _jvm


def reset_obligations():
    from nagini_translation.lib import config
    config.obligation_config._info.pop('disable_all', None)


_last = [None]


def translate(path, **kw):
    """main.translate with a history-free configuration; returns (modules, prog)."""
    from nagini_translation import main as M
    reset_obligations()
    key = (kw.get('sif', False), kw.get('bv_size', 8), kw.get('float_encoding'))
    reload = _last[0] != key
    _last[0] = key
    bv = kw.pop('bv_size', 8)
    kw.setdefault('base_dir', os.path.dirname(path))
    with contextlib.redirect_stdout(io.StringIO()):
        return M.translate(path, the_jvm(), bv, reload_resources=reload, **kw)


# ------------------------------------------------------- backend behaviour ----
def fail_asserts(prog, backend=None, args=None, program_id=None):
    """A deterministic backend: every assert statement that is not literally true fails."""
    from fakejvm import silver as S, jvm as J
    errs = []
    for m in prog._methods:
        for n in m.walk():
            if n.kind == 'Assert' and isinstance(n._pos, S.AbstractSourcePosition) \
                    and not isinstance(n._exp, S.TrueLit) and hasattr(n._pos, '_id'):
                errs.append(J.VError('assert.failed', n, J.Reason('assertion.false', n._exp)))
    return J.VFailure(errs) if errs else J.VSuccess()


def res_dict(r):
    d = r.to_dict()
    d.pop('duration', None)
    return d


def fresh(fn, *args, timeout=300):
    """Run fn(*args) in a fresh process and return its result."""
    ctx = multiprocessing.get_context('fork')
    a, b = ctx.Pipe(False)

    def go():
        try:
            b.send((True, fn(*args)))
        except BaseException as e:      # noqa
            import traceback
            b.send((False, traceback.format_exc()))
        b.close()
        os._exit(0)
    p = ctx.Process(target=go)
    p.start()
    b.close()
    try:
        if a.poll(timeout):
            ok, v = a.recv()
        else:
            ok, v = False, 'timeout'
    except EOFError:
        ok, v = False, 'process died'
    p.kill() if p.is_alive() else None
    p.join()
    if not ok:
        raise RuntimeError(v)
    return v


def pmap(fn, items, procs=8, timeout=800, init=None):
    """Parallel map in forked worker processes; exceptions are returned as ('EXC', text)."""
    import queue
    items = list(items)
    if not items:
        return []
    ctx = multiprocessing.get_context('fork')
    inq, outq = ctx.Queue(), ctx.Queue()
    for i, x in enumerate(items):
        inq.put((i, x))
    n = min(procs, len(items))
    for _ in range(n):
        inq.put(None)

    def work():
        try:
            if init:
                init()
        except BaseException:     # noqa
            import traceback
            outq.put((-1, ('EXC', traceback.format_exc())))
            outq.close()
            outq.join_thread()
            os._exit(0)
        while True:
            j = inq.get()
            if j is None:
                break
            i, x = j
            try:
                outq.put((i, fn(x)))
            except BaseException:     # noqa
                import traceback
                outq.put((i, ('EXC', traceback.format_exc())))
        outq.close()
        outq.join_thread()
        os._exit(0)
    ps = [ctx.Process(target=work) for _ in range(n)]
    for p in ps:
        p.start()
    import time
    end = time.time() + timeout
    res = [('EXC', 'no answer')] * len(items)
    got = 0
    while got < len(items) and time.time() < end:
        try:
            i, v = outq.get(timeout=1)
        except queue.Empty:
            if not any(p.is_alive() for p in ps):
                try:
                    while True:
                        i, v = outq.get(timeout=0.2)
                        if i >= 0:
                            res[i] = v
                            got += 1
                except queue.Empty:
                    break
            continue
        if i < 0:
            res = [v] * len(items)
            break
        res[i] = v
        got += 1
    for p in ps:
        if p.is_alive():
            p.kill()
        p.join()
    return res


def is_exc(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == 'EXC'


def memo_mypy():
    """Type check equal files once per process tree: for checks whose subject is what happens around a translation."""
    import hashlib
    import mypy.build as mb
    if getattr(mb.build, 'memo', None) is not None:
        return
    orig, memo = mb.build, {}

    def build(sources, options, *a, **k):
        try:
            s = sources[0]
            d = os.path.dirname(s.path)
            h = hashlib.sha1()
            for f in sorted(os.listdir(d)):
                if f.endswith('.py'):
                    h.update(f.encode() + open(os.path.join(d, f), 'rb').read())
            key = (len(sources), s.path, s.module, s.base_dir, h.hexdigest(), options.strict_optional,
                   str(options.mypy_path), os.getcwd())
        except OSError:
            return orig(sources, options, *a, **k)
        if key not in memo:
            r = orig(sources, options, *a, **k)
            if r.errors:
                return r
            memo[key] = r
        return memo[key]
    build.memo = memo
    mb.build = build
