"""A double of the JVM bridge (jpype) with the parts of Viper that Nagini's own
code is written against.  `install()` replaces the jpype entry points; call it
before importing nagini_translation."""
import os
import threading

from . import silver as S

REG = S.REG
STATICS = {}


def reg(name, cls):
    REG[name] = cls
    try:
        cls.FQ = name
    except Exception:
        pass
    return cls


class Package:
    def __init__(self, name):
        self.__dict__['_pkgname'] = name

    def __str__(self):
        return self._pkgname

    __repr__ = __str__

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        full = self._pkgname + '.' + n
        if full in REG:
            return REG[full]
        if n[0].isupper() or '$' in n:
            # nested class of an object?
            raise AttributeError("Java package '%s' has no class '%s'" % (self._pkgname, n))
        pre = full + '.'
        if any(k.startswith(pre) for k in REG):
            return Package(full)
        raise AttributeError("Java package '%s' is not valid" % full)


# ------------------------------------------------------------------ java ----
class Class:
    """java.lang.Class double"""
    def __init__(self, name):
        self.name = name

    @staticmethod
    def forName(name):
        if name not in REG:
            raise S.JavaError('java.lang.ClassNotFoundException: ' + name)
        return Class(name)

    def getDeclaredField(self, f):
        return self

    def get(self, _):
        if self.name not in STATICS:
            v = SINGLETONS.get(self.name)
            STATICS[self.name] = v if v is not None else REG[self.name]()
        return STATICS[self.name]

    def getSimpleName(self):
        return self.name.split('.')[-1]


SINGLETONS = {
    'scala.None$': S.NONE,
    'viper.silver.ast.Int$': S.Int, 'viper.silver.ast.Bool$': S.Bool,
    'viper.silver.ast.Ref$': S.Ref, 'viper.silver.ast.Perm$': S.Perm,
    'viper.silver.ast.NoPosition$': S.NoPosition, 'viper.silver.ast.NoInfo$': S.NoInfo,
    'viper.silver.ast.NoTrafos$': S.NoTrafos,
}
REG['scala.None$'] = S.NoneClass
REG['java.lang.Class'] = Class
REG['java.lang.Object'] = S.JObjectBase
REG['java.lang.String'] = str
REG['java.math.BigInteger'] = S.BigInteger
REG['scala.math.BigInt'] = S.BigInt
REG['scala.Some'] = S.Some
REG['scala.Tuple2'] = S.Tuple2


class System:
    err = object()

    @staticmethod
    def setOut(x):
        pass


reg('java.lang.System', System)


class TimeUnit:
    MILLISECONDS = 'ms'
    SECONDS = 's'


reg('java.util.concurrent.TimeUnit', TimeUnit)


class JPath(S.JObjectBase):
    FQ = 'java.nio.file.Path'

    def __init__(self, p):
        self.p = str(p)

    def __str__(self):
        return self.p

    def __eq__(self, o):
        return isinstance(o, JPath) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def getFileName(self):
        return JPath(os.path.basename(self.p))


class Paths:
    @staticmethod
    def get(p, rest=()):
        return JPath(p)


reg('java.nio.file.Paths', Paths)


class ArraySeq(S.Seq):
    FQ = 'scala.collection.mutable.ArraySeq'

    def __init__(self, n=0):
        super().__init__([None] * n if isinstance(n, int) else n)

    @staticmethod
    def make(arr):
        return ArraySeq(list(arr))


reg('scala.collection.mutable.ArraySeq', ArraySeq)


class ListBuffer(S.Seq):
    pass


reg('scala.collection.mutable.ListBuffer', ListBuffer)


class MHashSet(S.ScalaSet):
    pass


reg('scala.collection.mutable.HashSet', MHashSet)


class IHashMap(S.ScalaMap):
    pass


reg('scala.collection.immutable.HashMap', IHashMap)


# --------------------------------------------------------------- futures ----
class Future(S.JObjectBase):
    FQ = 'scala.concurrent.Future'

    def __init__(self):
        self.ev = threading.Event()
        self.val = None
        self.exc = None

    def succeed(self, v):
        if not self.ev.is_set():
            self.val = v
            self.ev.set()
        return self

    def fail(self, e):
        if not self.ev.is_set():
            self.exc = e
            self.ev.set()
        return self


class Duration:
    @staticmethod
    def Inf():
        return None

    @staticmethod
    def create(n, unit):
        return n / 1000.0 if unit == 'ms' else float(n)


reg('scala.concurrent.duration.Duration', Duration)


AWAIT_HOOK = None      # controller: called with the future before blocking on it
AFTER_AWAIT = None     # controller: called when the future is complete
GATE = None            # controller: GATE(name, obj) at external interaction points


class Await:
    @staticmethod
    def result(fut, dur):
        if AWAIT_HOOK is not None:
            AWAIT_HOOK(fut)
        if not fut.ev.wait(dur if dur is not None else HANG_LIMIT):
            raise S.JavaError('java.util.concurrent.TimeoutException')
        if AFTER_AWAIT is not None:
            AFTER_AWAIT(fut)
        if fut.exc is not None:
            raise fut.exc
        return fut.val


HANG_LIMIT = 600.0
reg('scala.concurrent.Await', Await)

# ---------------------------------------------------------- silver parser ----


class FastParser(S.JObjectBase):
    def parse(self, text, path, plugins, loader, has_ap):
        return PProgram(text, str(path))


class PProgram(S.JObjectBase):
    def __init__(self, text, path):
        self.text, self.path = text, path

    def initProperties(self):
        pass


class PResolver(S.JObjectBase):
    def __init__(self, p):
        self.p = p

    def run(self, warn=False):
        return S.Some(self.p)


class PTranslator(S.JObjectBase):
    def apply(self, resolved):
        t = PTranslator()
        t.p = resolved
        return t

    def translate(self):
        from . import silparser
        PARSE_LOG.append((self.p.text, self.p.path))
        return S.Some(silparser.parse_program(self.p.text, self.p.path))


PARSE_LOG = []


class TerminationPlugin(S.JObjectBase):
    def __init__(self, *a):
        pass

    def beforeParse(self, text, imported):
        return text


reg('viper.silver.parser.FastParser', FastParser)
reg('viper.silver.parser.Resolver', PResolver)
reg('viper.silver.parser.Translator$', PTranslator)
reg('viper.silver.plugin.standard.termination.TerminationPlugin', TerminationPlugin)
reg('viper.silver.ast.utility.DiskLoader$', type('DiskLoader', (S.JObjectBase,), {}))


class Consistency:
    @staticmethod
    def resetMessages():
        pass


reg('viper.silver.ast.utility.Consistency', Consistency)


class QuantifiedPermissions(S.JObjectBase):
    def desugarSourceQuantifiedPermissionSyntax(self, f):
        return S.Seq([f])


reg('viper.silver.ast.utility.QuantifiedPermissions$', QuantifiedPermissions)


class Chopper(S.JObjectBase):
    """PluginAwareChopper.chop(program, Set[String]): keeps the members named in the
    selection together with everything they depend on."""

    def chop(self, prog, selection):
        CHOP_LOG.append((prog, sorted(map(str, selection.items))))
        from . import chop
        return chop.chop(prog, [str(x) for x in selection.items])


CHOP_LOG = []
reg('viper.silver.ast.utility.chopper.PluginAwareChopper$', Chopper)
REG['viper.silver.ast.utility.chopper.PluginAwareChopper'] = Chopper


# ------------------------------------------------------------- verifier ----
class VerificationResult(S.JObjectBase):
    pass


class VSuccess(VerificationResult):
    pass


class VFailure(VerificationResult):
    def __init__(self, errors):
        self.errs = errors

    def errors(self):
        if GATE is not None:
            GATE('errors', self)
        return S.Seq(self.errs)


reg('viper.silver.verifier.VerificationResult', VerificationResult)
reg('viper.silver.verifier.Success$', VSuccess)
reg('viper.silver.verifier.Failure', VFailure)


class Reason(S.JObjectBase):
    def __init__(self, rid, node, text=None):
        self._id, self._n, self._t = rid, node, text or ('reason text of ' + rid)

    def id(self):
        return self._id

    def offendingNode(self):
        return self._n

    def readableMessage(self):
        return self._t

    def pos(self):
        return self._n.pos()


class FailureContext(S.JObjectBase):
    def __init__(self, ce=None, bcs=()):
        self.ce, self.bcs = ce, list(bcs)

    def counterExample(self):
        return S.Some(self.ce) if self.ce is not None else S.NONE

    def branchConditions(self):
        return S.Seq(self.bcs)


class VError(S.JObjectBase):
    """AbstractVerificationError double."""

    def __init__(self, eid, node, reason, contexts=(), text=None, transformed=None):
        self._id, self._n, self._r = eid, node, reason
        self._ctx = list(contexts)
        self._t = text or ('Silver text for %s.' % eid)
        self._tr = transformed

    def id(self):
        return self._id

    def fullId(self):
        return '%s:%s' % (self._id, self._r.id())

    def offendingNode(self):
        return self._n

    def reason(self):
        return self._r

    def pos(self):
        return self._n.pos()

    def failureContexts(self):
        return S.Seq(self._ctx)

    def transformedError(self):
        return self._tr if self._tr is not None else self

    def readableMessage(self):
        return '%s %s (%s)' % (self._t, self._r.readableMessage(), self.pos())

    def text(self):
        return self._t

    class _C(S.JObjectBase._Cls):
        pass


class TimeoutOccurred(S.JObjectBase):
    """viper.silver.verifier.TimeoutOccurred: an AbstractError without id/reason."""

    def __init__(self, n=10):
        self.n = n

    def pos(self):
        return S.NoPosition

    def fullId(self):
        return 'timeout.error'

    def readableMessage(self):
        return 'Timeout occurred after %d second(s).' % self.n


reg('viper.silver.verifier.TimeoutOccurred', TimeoutOccurred)


class AbortedExceptionally(S.JObjectBase):
    def __init__(self, msg='aborted'):
        self.m = msg

    def pos(self):
        return S.NoPosition

    def fullId(self):
        return 'exception.verification.aborted'

    def readableMessage(self):
        return 'Verification aborted exceptionally (%s)' % self.m

    def failureContexts(self):
        return S.Seq([])

    def transformedError(self):
        return self

    def text(self):
        return self.readableMessage()


reg('viper.silver.verifier.AbortedExceptionally', AbortedExceptionally)
reg('viper.silver.verifier.ConstantEntry', type('ConstantEntry', (S.JObjectBase,), {}))
reg('viper.silver.verifier.ApplicationEntry', type('ApplicationEntry', (S.JObjectBase,), {}))

reg('viper.silver.reporter.NoopReporter$', type('NoopReporter', (S.JObjectBase,), {}))
reg('viper.silicon.Silicon', type('Silicon', (S.JObjectBase,), {}))
reg('viper.carbon.CarbonVerifier', type('CarbonVerifier', (S.JObjectBase,), {}))


class BackendHooks:
    """Set .verify to decide what a backend answers: f(prog, backend, args, program_id)."""
    verify = staticmethod(lambda prog, backend, args, program_id: VSuccess())
    calls = []
    stops = 0


class Frontend(S.JObjectBase):
    backend = ''

    def __init__(self, reporter):
        self.args = None

    def initialize(self, args):
        self.args = [str(x) for x in args.items]

    def verify(self, prog):
        BackendHooks.calls.append((self.backend, self.args))
        return BackendHooks.verify(prog, self.backend, self.args, None)

    def stop(self):
        BackendHooks.stops += 1


reg('viper.silicon.MinimalSiliconFrontendAPI', type('MinimalSiliconFrontendAPI', (Frontend,), {'backend': 'silicon'}))
reg('viper.carbon.MinimalCarbonFrontendAPI', type('MinimalCarbonFrontendAPI', (Frontend,), {'backend': 'carbon'}))


# ----------------------------------------------------------- viper server ----
class ViperConfig(S.JObjectBase):
    def __init__(self, args):
        self.args = [str(a) for a in args.items]


class ExecContext(S.JObjectBase):
    def __init__(self, *a):
        self.terminated = False
        SERVER.executors.append(self)

    def __getattr__(self, n):
        if n == 'terminate$default$1':
            return lambda: 0
        raise AttributeError(n)

    def terminate(self, d):
        self.terminated = True


class BackendConfig(S.JObjectBase):
    def __init__(self, backend, args):
        self.backend, self.args = backend, [str(a) for a in args.items]


class SiliconConfig:
    @staticmethod
    def apply(args):
        return BackendConfig('silicon', args)


class CarbonConfig:
    @staticmethod
    def apply(args):
        return BackendConfig('carbon', args)


class VerJobId(S.JObjectBase):
    def __init__(self, i):
        self.i = i

    def id(self):
        return self.i

    def __eq__(self, o):
        return isinstance(o, VerJobId) and self.i == o.i

    def __hash__(self):
        return hash(self.i)

    def __str__(self):
        return 'VerJobId(%d)' % self.i


class Job:
    def __init__(self, jid, program_id, cfg, prog):
        self.id, self.program_id, self.cfg, self.prog = jid, program_id, cfg, prog
        self.future = Future()
        self.stopped = False


class StopVerification(S.JObjectBase):
    pass


class Actor(S.JObjectBase):
    def __init__(self, job):
        self.job = job

    def tell(self, msg, sender):
        if isinstance(msg, StopVerification):
            SERVER.on_stop(self.job)


class Handle(S.JObjectBase):
    def __init__(self, job):
        self.job = job

    def job_actor(self):
        return Actor(self.job)


class Pool(S.JObjectBase):
    def lookupJob(self, jid):
        with SERVER.lock:
            j = SERVER.jobs.get(jid.i)
            if j is None or jid.i in SERVER.discarded:
                return S.NONE
            return S.Some(Future().succeed(Handle(j)))

    def discardJob(self, jid):
        with SERVER.lock:
            SERVER.discarded.add(jid.i)


class ServerState:
    """Observable state of the ViperServer double, plus the controller's hooks."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.lock = threading.RLock()
        self.jobs = {}
        self.discarded = set()
        self.started = 0
        self.stopped = 0
        self.flushes = 0
        self.interrupts = 0
        self.instances = 0
        self.executors = []
        self.start_fails = False
        self.submit_fails = False
        # on_submit(job): controller hook; default answers at once
        self.on_submit_hook = None
        self.log = []
        self.live = False

    def on_submit(self, job):
        self.log.append(('submit', job.id.i, job.program_id, job.cfg.backend))
        if self.on_submit_hook is not None:
            self.on_submit_hook(job)
        else:
            try:
                job.future.succeed(BackendHooks.verify(job.prog, job.cfg.backend, job.cfg.args, job.program_id))
            except Exception as e:       # noqa
                job.future.fail(e)

    def on_stop(self, job):
        if job.future.ev.is_set():
            return          # nobody can tell that a finished job was told to stop
        self.log.append(('stop', job.id.i))
        job.stopped = True
        # a stopped verification never delivers a result: its stream is closed
        job.future.fail(S.JavaError('java.lang.InterruptedException: job %d stopped' % job.id.i))


SERVER = ServerState()


class ViperServerService(S.JObjectBase):
    def __init__(self, cfg, executor):
        SERVER.instances += 1
        self.pool = Pool()

    def start(self):
        if SERVER.start_fails:
            return Future().fail(S.JavaError('server start failed'))
        SERVER.started += 1
        SERVER.live = True
        return Future().succeed(None)

    def verify(self, program_id, cfg, prog, none):
        if GATE is not None:
            GATE('submit', (str(program_id), cfg, prog))
        if SERVER.submit_fails or not SERVER.live:
            raise S.JavaError('server not running')
        with SERVER.lock:
            i = len(SERVER.jobs)
            jid = VerJobId(i)
            job = Job(jid, str(program_id), cfg, prog)
            SERVER.jobs[i] = job
        SERVER.on_submit(job)
        return jid

    def ver_jobs(self):
        return self.pool

    def getInterruptFutureList(self):
        SERVER.interrupts += 1
        for j in list(SERVER.jobs.values()):
            if not j.future.ev.is_set():
                SERVER.on_stop(j)
        return Future().succeed(S.Seq([]))

    def flushCache(self, none):
        SERVER.flushes += 1

    def stop(self):
        SERVER.stopped += 1
        SERVER.live = False
        for j in list(SERVER.jobs.values()):
            if not j.future.ev.is_set():
                SERVER.on_stop(j)
        return Future().succeed(None)


class ViperCoreServerUtils:
    @staticmethod
    def getResultsFuture(server, jid, executor):
        with SERVER.lock:
            if jid.i not in SERVER.jobs or (jid.i in SERVER.discarded and not SERVER.jobs[jid.i].future.ev.is_set()):
                return Future().fail(S.JavaError('JobNotFoundException'))
            return SERVER.jobs[jid.i].future


reg('viper.server.ViperConfig', ViperConfig)
reg('viper.server.core.DefaultVerificationExecutionContext', ExecContext)
reg('viper.server.core.SiliconConfig', SiliconConfig)
reg('viper.server.core.CarbonConfig', CarbonConfig)
reg('viper.server.core.ViperCoreServerUtils', ViperCoreServerUtils)
reg('viper.server.frontends.lsp.ViperServerService', ViperServerService)
reg('viper.server.vsi.VerificationProtocol$StopVerification$', StopVerification)


class ActorRef:
    @staticmethod
    def noSender():
        return None


reg('akka.actor.ActorRef', ActorRef)


# ---------------------------------------------------------- SIF transform ----
class SIFExtendedTransformer(S.JObjectBase):
    """Records how the product-program transformation was configured."""
    state = {}
    equalityCompFunctions = None

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)

        def f(*a):
            SIFExtendedTransformer.state.setdefault(n, []).append(
                tuple(sorted(map(str, x.items)) if isinstance(x, S.Seq) else x for x in a))
        return f

    def transform(self, prog, b):
        SIFExtendedTransformer.state.setdefault('transform', []).append(())
        return prog


reg('viper.silver.sif.SIFExtendedTransformer$', SIFExtendedTransformer)
REG['viper.silver.sif.SIFExtendedTransformer'] = SIFExtendedTransformer
reg('viper.silicon.sif.CounterexampleSIFTransformerO$', type('CounterexampleSIFTransformerO', (SIFExtendedTransformer,), {}))


class ARPPlugin(S.JObjectBase):
    calls = []

    def setIgnoredFields(self, f):
        ARPPlugin.calls.append(('ignored', [str(x) for x in f.items]))

    def beforeVerify(self, prog):
        ARPPlugin.calls.append(('before',))
        return prog

    def mapVerificationResult(self, r):
        ARPPlugin.calls.append(('map',))
        return r


reg('viper.silver.plugin.ARPPlugin', ARPPlugin)


class ManualProgramSubmitter(S.JObjectBase):
    def __init__(self, *a):
        pass

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        return lambda *a: None


reg('viper.silver.utility.ManualProgramSubmitter', ManualProgramSubmitter)

# ----------------------------------------------------------- silicon terms ----
T = 'viper.silicon.state.terms.'


class Term(S.JObjectBase):
    pass


def _term(name, fields, fn=None):
    flds = fields.split()

    def init(self, *a):
        assert len(a) == len(flds), (name, a)
        for f, v in zip(flds, a):
            self.__dict__['_' + f] = v

    d = {'__init__': init, '_flds': flds}
    for f in flds:
        d[f] = (lambda f: lambda self: self.__dict__['_' + f])(f)
    if fn:
        d['__str__'] = fn
    return reg(T + name, type(name, (Term,), d))


for _n in ('Int', 'Bool', 'Ref', 'Perm', 'Snap', 'Null', 'Unit'):
    pass
reg(T + 'Unit$', type('Unit$', (Term,), {'__str__': lambda s: '_'}))
reg(T + 'Null$', type('Null$', (Term,), {'__str__': lambda s: 'Null'}))
_term('IntLiteral', 'n', lambda s: str(s._n))
_term('Var', 'id sort', lambda s: str(s._id))
_term('App', 'applicable args', lambda s: '%s(%s)' % (s._applicable, s._args))
_term('Combine', 'p0 p1')
_term('First', 'p')
_term('Second', 'p')
_term('SortWrapper', 't to')
_term('PredicateLookup', 'predname psf args')
_term('SeqAppend', 'p0 p1')
_term('SeqSingleton', 'p')
_term('SeqNil', 'elementsSort')
for _n in ('Int', 'Bool', 'Ref', 'Perm', 'Snap'):
    reg(T + 'sorts$' + _n + '$', type('sorts$' + _n, (S.JObjectBase,), {'__str__': (lambda n: lambda s: n)(_n)}))
for _n in ('UserSort', 'Seq', 'Set', 'Map'):
    reg(T + 'sorts$' + _n, type('sorts$' + _n, (S.JObjectBase,), {}))
reg('viper.silicon.state.BasicChunk', type('BasicChunk', (S.JObjectBase,), {}))


# ------------------------------------------------------------------ jpype ----
def JClass(x):
    if isinstance(x, Class):
        return REG[x.name]
    if isinstance(x, type):
        return x
    if x not in REG:
        raise TypeError('Class %s not found' % x)
    return REG[x]


class _Arr(list):
    pass


def JArray(t):
    def make(n):
        return _Arr([None] * n) if isinstance(n, int) else _Arr(n)
    return make


def install():
    import jpype
    jpype.isJVMStarted = lambda: True
    jpype.startJVM = lambda *a, **k: None
    jpype.shutdownJVM = lambda *a, **k: None
    jpype.JPackage = Package
    jpype.JClass = JClass
    jpype.JObject = lambda x, t=None: x
    jpype.JArray = JArray
    jpype.JProxy = lambda t, inst=None, dict=None: inst
    jpype.isThreadAttachedToJVM = lambda: True
    jpype.attachThreadToJVM = lambda: None
    jpype.JException = S.JavaError
    jpype.java = Package('java')
