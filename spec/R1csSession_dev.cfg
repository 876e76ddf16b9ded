SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  VecDims = {0,1,2,3,5}
  MaxVecs = 4
  MaxScalars = 3
  MaxGates = 6
  MaxCons = 8
  Devs = {"comm","blind","vblind","vdim","vfirst","vlast","mulconst","mulcoef","const","coef","drop","dup","var","late","fixconst","zconst","zdrop","label","vgate"}
  AllowBad = TRUE
  MaxDefer = 2
  Kinds = {"zcon","zmul","zalloc","zgate","nop"}
  Mix = FALSE
  Caps = {"exact"}
  VCaps = {"exact"}
  MinEmit = 4
INVARIANTS HandlesDistinct PendingSane LockStep AcceptSound HonestComplete PaddingSound Emit
CHECK_DEADLOCK FALSE
