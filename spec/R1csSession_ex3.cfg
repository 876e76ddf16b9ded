SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  VecDims = {0,1,3}
  MaxVecs = 3
  MaxScalars = 3
  MaxGates = 3
  MaxCons = 3
  Devs = {"missing"}
  AllowBad = FALSE
  MaxDefer = 2
  Kinds = {"zcon","zmul","zalloc","zgate","nop","err"}
  Mix = TRUE
  Caps = {"exact"}
  VCaps = {"exact"}
  MinEmit = 0
INVARIANTS HandlesDistinct PendingSane LockStep AcceptSound HonestComplete PaddingSound Emit
CHECK_DEADLOCK FALSE
