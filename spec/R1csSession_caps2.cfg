SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  VecDims = {0,1,3,5}
  MaxVecs = 2
  MaxScalars = 1
  MaxGates = 2
  MaxCons = 1
  Devs = {}
  AllowBad = FALSE
  MaxDefer = 1
  Kinds = {"zcon","zmul","zalloc","zgate","nop"}
  Mix = FALSE
  Caps = {"exact","big","short"}
  VCaps = {"exact","big","short"}
  MinEmit = 0
INVARIANTS HandlesDistinct PendingSane LockStep AcceptSound HonestComplete PaddingSound Emit
CHECK_DEADLOCK FALSE
