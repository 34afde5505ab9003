OB = 'src/nagini_translation/translators/obligation/'
ME = 'src/nagini_translation/translators/method.py'
HEADL = '''from nagini_contracts.contracts import *
from nagini_contracts.obligations import MustTerminate, MustRelease
from nagini_contracts.lock import Lock


class ObjectLock(Lock[object]):
    @Predicate
    def invariant(self) -> bool:
        return True


'''
SEEDS = [
 dict(id='b09', property='T10', needs='a loop that acquires a lock in its body and reaches the end of the body still holding it',
      breaks='the leak check at the end of the loop body is only evaluated before the loop',
      edits=[(OB + 'loop_node.py', 'sil.Implies(sil.Not(loop_check_before), leak_check))', 'sil.Implies(loop_check_before, leak_check))')],
      prog=HEADL + '''# run: 0..2
def body(k: int) -> int:
    i = 0
    while i < 2:
        Invariant(True)
        l = ObjectLock(object())
        l.acquire()
        if k == 0:
            l.release()
            i += 1
        else:
            i += 1 #! leak@-8
    return i
'''),
 dict(id='b10', property='T10', needs='a loop invariant with an obligation to release a lock whose measure does not decrease in some iteration',
      breaks='the measure of the obligation is not compared with the one at the start of the iteration',
      edits=[(OB + 'inexhale.py', """                self._construct_bounded_exhale(None),
                self._construct_bounded_exhale(measure_check))""", """                self._construct_bounded_exhale(None),
                self._construct_bounded_exhale(
                    None if self._is_loop else measure_check))""")],
      prog=HEADL + '''# run: 0..2
def held(k: int) -> int:
    l = ObjectLock(object())
    l.acquire()
    i = 0
    while i < 3:
        Invariant(MustRelease(l, 4 - i))
        if k == 1 and i == 1:
            continue #! term@-2
        i += 1
    l.release()
    return i
'''),
 dict(id='b11', property='T03', needs='a method that declares two exception types and raises one of neither',
      breaks='the postcondition that only declared exceptions leave the method is dropped',
      edits=[(ME, """        if error_type_cond is not None:
            posts.append(self.viper.Implies(error, error_type_cond,""", """        if error_type_cond is not None and len(error_type_conds) == 1:
            posts.append(self.viper.Implies(error, error_type_cond,""")],
      prog='''from nagini_contracts.contracts import *


class A(Exception):
    pass


class B(Exception):
    pass


class C(Exception):
    pass


# run: 0..3
def f(k: int) -> int:
    Exsures(A, True)
    Exsures(B, True)
    if k == 1:
        raise A()
    if k == 2:
        raise B()
    if k == 3:
        raise C()
    return k
'''),
]
SEEDS[1]['edits'] = [(OB + 'inexhale.py', SEEDS[1]['edits'][0][1], SEEDS[1]['edits'][0][1].replace('(measure_check)', '(None)'))]
