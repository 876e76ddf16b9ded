SPECIFICATION Spec
CONSTANTS
  MaxOps = 16
  VecDims = {0,1,2,3,5,9}
  MaxVecs = 4
  MaxScalars = 4
  MaxGates = 9
  MaxCons = 8
  Devs = {}
  AllowBad = FALSE
  MaxDefer = 3
  Kinds = {"zcon","zmul","zalloc","zgate","nop"}
  Mix = FALSE
  Caps = {"exact"}
  VCaps = {"big"}
  MinEmit = 6
INVARIANTS HandlesDistinct PendingSane LockStep AcceptSound HonestComplete PaddingSound Emit
CHECK_DEADLOCK FALSE
