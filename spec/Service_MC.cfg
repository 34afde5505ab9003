CONSTANTS Req = {1,2,3}
 Tok = {1,2}
 Kinds = {"ok", "fail", "reject"}
SPECIFICATION Spec
INVARIANTS MutualExclusion LockOwner Isolation OwnItems TokenPrecise NoStuck
PROPERTY CancelPrecise StopPrecise
