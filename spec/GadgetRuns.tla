----------------------------- MODULE GadgetRuns -----------------------------
(***************************************************************************)
(* Runs of the gadgets with real provers and verifiers.  Each state is one *)
(* run: a gadget of a given size, the value claimed and the witness        *)
(* offered, described symbolically, with the verdict the documented        *)
(* relation prescribes.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Sizes, Bits
VARIABLE run
Sgn(x) == IF x < 0 THEN -1 ELSE 1
(* s * 2^k + a *)
RECURSIVE Two(_)
Two(n) == IF n = 0 THEN 1 ELSE 2 * Two(n - 1)
Value(s, k, a) == [s |-> s, k |-> k, a |-> a]
InRange(v, n) ==
  IF v.s = 0 THEN v.a >= 0 /\ (v.a < 2 => (v.a = 0 \/ n > 0))
  ELSE IF v.s < 0 THEN v.k = 0 /\ v.a = 1
  ELSE IF v.k <= 4 /\ n <= 8 THEN LET x == Two(v.k) + v.a IN x >= 0 /\ x < Two(n)
  ELSE (v.k < n \/ (v.k = n /\ v.a < 0))
Fits64(v) == v.s >= 0 /\ InRange(v, 64)
Ranges == { [g |-> "range", n |-> n, v |-> v, claim |-> c, exp |-> InRange(v, n) /\ c = "value"] :
            n \in Ns, v \in { Value(0, 0, 0), Value(0, 0, 1) } \cup { Value(s, k, a) : s \in {-1, 1}, k \in {0, 1} \cup Bits, a \in {-1, 0, 1} },
            c \in {"value", "low", "zero"} }
(* the witness: the value itself where it has 64 bits, its low n bits, or zero *)
GoodRange(x) == (x.v.s >= 0 \/ x.claim # "value") /\ (x.claim = "value" => Fits64(x.v) /\ ~(x.v.s = 0 /\ x.v.a < 0))
NearRange(x) == x.v.s = 0 \/ x.v.k \in {0, 1, x.n - 1, x.n, x.n + 1, 63, 64}
(* zero and low may coincide with the value *)
SameAsValue(x) == \/ x.claim = "low" /\ InRange(x.v, x.n)
                  \/ x.claim = "zero" /\ ((x.v.s = 0 /\ x.v.a = 0) \/ (x.v.k = 0 /\ x.v.s # 0 /\ x.v.s + x.v.a = 0))
Selects == { [g |-> "select", n |-> n, at |-> i, kind |-> c, exp |-> c \in {"member", "twice", "zeropad"}] :
             n \in Sizes, i \in 0..40, c \in {"member", "twice", "zeropad", "absent", "negated", "offbyone", "empty"} }
Lookups == { [g |-> "lookup", at |-> i, j |-> j, kind |-> c, exp |-> (c = "pair" /\ i = j) \/ (c = "first" /\ i = j)] :
             i \in 0..7, j \in 0..7, c \in {"pair", "first"} }
Curves == { [g |-> "curve", kind |-> c, field |-> f, exp |-> c \in {"point", "opposite"}] :
            c \in {"point", "opposite", "xoff", "yoff", "swapped", "zero", "othercurve"}, f \in {"pallas", "vesta", "secp256k1", "secq256k1", "linear"} }
Additions == { [g |-> "addition", checked |-> ch, kind |-> c, exp |-> c \in {"sum", "opposite summands"}] :
               ch \in BOOLEAN, c \in {"sum", "opposite summands", "wrong x", "wrong y", "negated sum", "left", "difference"} }
         \cup { [g |-> "addition", checked |-> TRUE, kind |-> c, exp |-> FALSE] : c \in {"same point", "inverse points", "tangent"} }
Runs == { x \in Ranges : GoodRange(x) /\ NearRange(x) /\ ~SameAsValue(x) }
        \cup { x \in Selects : x.at < x.n } \cup Lookups \cup Curves \cup Additions
Init == run \in Runs
Next == UNCHANGED run
Spec == Init /\ [][Next]_run
Emit == PrintT("@@" \o ToJson(run))
=============================================================================
