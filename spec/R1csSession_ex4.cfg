SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  VecDims = {0,2}
  MaxVecs = 3
  MaxScalars = 3
  MaxGates = 2
  MaxCons = 3
  Devs = {}
  AllowBad = FALSE
  MaxDefer = 2
  Kinds = {"zcon","zmul","zalloc","zgate","nop"}
  Mix = FALSE
  Caps = {"exact"}
  VCaps = {"exact"}
  MinEmit = 0
INVARIANTS HandlesDistinct PendingSane LockStep AcceptSound HonestComplete PaddingSound Emit
CHECK_DEADLOCK FALSE
