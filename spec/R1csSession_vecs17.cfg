SPECIFICATION Spec
CONSTANTS
  MaxOps = 24
  VecDims = {0,1,2,3}
  MaxVecs = 17
  MaxScalars = 1
  MaxGates = 2
  MaxCons = 2
  Devs = {}
  AllowBad = FALSE
  MaxDefer = 1
  Kinds = {"zcon","nop"}
  Mix = FALSE
  Caps = {"exact"}
  VCaps = {"exact"}
  MinEmit = 22
INVARIANTS HandlesDistinct PendingSane LockStep AcceptSound HonestComplete PaddingSound Emit
CHECK_DEADLOCK FALSE
