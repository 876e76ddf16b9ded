SPECIFICATION Spec
CONSTANTS
  MaxOps = 9
  VecDims = {0,1,3,5}
  MaxVecs = 2
  MaxScalars = 1
  MaxGates = 9
  MaxCons = 1
  Devs = {}
  AllowBad = FALSE
  MaxDefer = 2
  Kinds = {"zcon","zmul","zalloc","zgate","nop"}
  Mix = FALSE
  Caps = {"exact","big","short"}
  VCaps = {"exact","big","short"}
  MinEmit = 3
INVARIANTS HandlesDistinct PendingSane LockStep AcceptSound HonestComplete PaddingSound Emit
CHECK_DEADLOCK FALSE
