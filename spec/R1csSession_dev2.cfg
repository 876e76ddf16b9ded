SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  VecDims = {0,2}
  MaxVecs = 2
  MaxScalars = 2
  MaxGates = 2
  MaxCons = 2
  Devs = {"comm","blind","vblind","vdim","vfirst","vlast","mulconst","mulcoef","const","coef","drop","dup","var","late","fixconst","zconst","zdrop","label","vgate"}
  AllowBad = TRUE
  MaxDefer = 1
  Kinds = {"zcon","zmul","zalloc","zgate","nop"}
  Mix = FALSE
  Caps = {"exact"}
  VCaps = {"exact"}
  MinEmit = 0
INVARIANTS HandlesDistinct PendingSane LockStep AcceptSound HonestComplete PaddingSound Emit
CHECK_DEADLOCK FALSE
