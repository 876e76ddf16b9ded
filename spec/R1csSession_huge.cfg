SPECIFICATION Spec
CONSTANTS
  MaxOps = 60
  VecDims = {1,17,33}
  MaxVecs = 3
  MaxScalars = 6
  MaxGates = 40
  MaxCons = 12
  Devs = {}
  AllowBad = FALSE
  MaxDefer = 4
  Kinds = {"zcon","zmul","zalloc","zgate","nop"}
  Mix = FALSE
  Caps = {"exact"}
  VCaps = {"big"}
  MinEmit = 30
INVARIANTS HandlesDistinct PendingSane LockStep AcceptSound HonestComplete PaddingSound Emit
CHECK_DEADLOCK FALSE
