------------------------------ MODULE ProofWire ------------------------------
(***************************************************************************)
(* The byte format of a proof and what a receiver makes of altered bytes.  *)
(*                                                                         *)
(* A proof is a sequence of tokens (point, scalar, length, flag), each     *)
(* with a value class taken from a proof made by the code: 0 is the        *)
(* identity / zero, equal classes are equal bytes.  Actions alter the      *)
(* sequence; Parse is the specification of the decoder.  A sequence that   *)
(* does not parse, or parses to another proof than the original, must be   *)
(* refused by decoder or verifier.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxMut,       \* alterations in a row
          Compound      \* TRUE: also consistent resizing and phase changes
Layouts == ndJsonDeserialize(IOEnv.LAYOUTS)    \* [k, tokens: seq of [t, v]]
VARIABLES k, toks, muts
vars == <<k, toks, muts>>
Orig == Layouts[k].tokens

(* ---- the decoder ------------------------------------------------------ *)
Bad == [ok |-> FALSE, rest |-> <<>>, out |-> <<>>]
Take(st, type) ==
  IF ~st.ok \/ st.rest = <<>> \/ st.rest[1].t # type \/ st.rest[1].v = 9999 THEN Bad
  ELSE [ok |-> TRUE, rest |-> Tail(st.rest), out |-> Append(st.out, st.rest[1].v)]
RECURSIVE TakeN(_, _, _)
TakeN(st, type, n) == IF n = 0 \/ ~st.ok THEN st ELSE TakeN(Take(st, type), type, n - 1)
TakeVec(st) ==      \* length-prefixed points
  LET l == Take(st, "N") IN
  IF ~l.ok THEN Bad
  ELSE LET n == l.out[Len(l.out)] IN IF n > Len(l.rest) THEN Bad ELSE TakeN(l, "P", n)
TakePhase2(st) ==
  LET f == Take(st, "F") IN
  IF ~f.ok THEN Bad
  ELSE CASE f.out[Len(f.out)] = 1 -> TakeN([f EXCEPT !.out = SubSeq(@, 1, Len(@) - 1)], "P", 3)
         [] f.out[Len(f.out)] = 0 -> [f EXCEPT !.out = SubSeq(@, 1, Len(@) - 1) \o <<0, 0, 0>>]
         [] OTHER -> Bad
(* the proof denoted by a token sequence, or Bad *)
Parse(s) ==
  LET a == TakeN([ok |-> TRUE, rest |-> s, out |-> <<>>], "P", 3)
      b == TakePhase2(a)
      c == TakeVec(b)
      d == TakeN(c, "S", 3)
      e == TakeVec(d)
      f == TakeVec(e)
      g == TakeN(f, "S", 2)
  IN IF g.ok /\ g.rest = <<>> THEN g ELSE Bad
Same == Parse(toks).ok /\ Parse(toks).out = Parse(Orig).out

(* ---- alterations ------------------------------------------------------ *)
Step(op, i, arg, new) ==
  /\ toks' = new /\ muts' = Append(muts, [op |-> op, i |-> i - 1, arg |-> arg]) /\ UNCHANGED k
Set(i, v) == [toks EXCEPT ![i].v = v]
Neg(v) == IF v = 9999 THEN v ELSE -v
Mutate ==
  /\ Len(muts) < MaxMut
  /\ \E i \in 1..Len(toks) :
     LET x == toks[i] IN
     \/ x.t = "P" /\ \/ Step("neg", i, 0, Set(i, Neg(x.v)))
                     \/ Step("ident", i, 0, Set(i, 0))
                     \/ Step("gen", i, 0, Set(i, 5000))
                     \/ Step("offcurve", i, 0, Set(i, 9999))
     \/ x.t = "S" /\ \/ Step("inc", i, 0, Set(i, 6000 + x.v))
                     \/ Step("zero", i, 0, Set(i, 0))
                     \/ Step("noncanonical", i, 0, Set(i, 9999))
     \/ x.t = "F" /\ \E v \in {0, 1, 2, 255} : Step("flag", i, v, Set(i, v))
     \/ x.t = "N" /\ \E v \in {0, x.v - 1, x.v + 1, 2 * x.v, 1000000} \ {-1, x.v} : Step("len", i, v, Set(i, v))
     \/ \E j \in {i - 1, i + 1, i + 2} \cap (1..Len(toks)) :
          toks[j].t = x.t /\ Step("copy", i, j - 1, Set(i, toks[j].v))
     \/ x.t \in {"P", "S"} /\ \E b \in {0, 1, 9, 77, 128, 200, 247, 252, 253, 254, 255} :
          \* one bit; the identity may have several encodings, all of which denote the identity
          Step("flip", i, b, Set(i, IF x.t = "P" /\ x.v = 0 THEN 0 ELSE 7000 + b))
     \/ i < Len(toks) /\ toks[i + 1].t = x.t /\ Step("swap", i, i, [toks EXCEPT ![i] = toks[i + 1], ![i + 1] = toks[i]])
     \/ Step("delete", i, 0, RemoveAt(toks, i))
     \/ Step("dup", i, 0, InsertAt(toks, i, x))
     \/ Step("trunc", i, 0, SubSeq(toks, 1, i - 1))
     \/ Step("cut", i, 0, Append(SubSeq(toks, 1, i - 1), [t |-> "X", v |-> 9999]))
     \/ i = Len(toks) /\ Step("tail", i, 0, Append(toks, [t |-> "X", v |-> 9999]))
(* positions of the length tokens of T, L and R in an unaltered proof *)
Ns == { i \in 1..Len(toks) : toks[i].t = "N" }
VecEnd(i) == i + toks[i].v
Grow(s, i) == InsertAt([s EXCEPT ![i].v = @ + 1], i + s[i].v + 1, [t |-> "P", v |-> IF s[i].v = 0 THEN 5000 ELSE s[i + s[i].v].v])
Shrink(s, i) == RemoveAt([s EXCEPT ![i].v = @ - 1], i + s[i].v)
Flags == { i \in 1..Len(toks) : toks[i].t = "F" }
Id3 == [j \in 1..3 |-> [t |-> "P", v |-> 0]]
Resize ==
  /\ Compound /\ muts = <<>>
  /\ \/ \E i \in Ns : \/ Step("grow", i, 0, Grow(toks, i))
                      \/ toks[i].v > 0 /\ Step("shrink", i, 0, Shrink(toks, i))
                      \/ toks[i].v > 0 /\ Step("empty", i, 0, [j \in 1..(Len(toks) - toks[i].v) |->
                              IF j < i THEN toks[j] ELSE IF j = i THEN [t |-> "N", v |-> 0] ELSE toks[j + toks[i].v]])
     \/ \E i \in Ns, j \in Ns : \* both of L and R, keeping them equally long
          /\ i < j /\ j = VecEnd(i) + 1
          /\ \/ Step("grow2", i, j - 1, Grow(Grow(toks, j), i))
             \/ toks[i].v > 0 /\ toks[j].v > 0 /\ Step("shrink2", i, j - 1, Shrink(Shrink(toks, j), i))
     \/ \E i \in Flags : \/ toks[i].v = 0 /\ Step("flag1", i, 0, SubSeq(toks, 1, i - 1) \o << [t |-> "F", v |-> 1] >> \o Id3 \o SubSeq(toks, i + 1, Len(toks)))
                         \/ toks[i].v = 1 /\ Step("flag0", i, 0, SubSeq(toks, 1, i - 1) \o << [t |-> "F", v |-> 0] >> \o SubSeq(toks, i + 4, Len(toks)))

Init == k \in 1..Len(Layouts) /\ toks = Orig /\ muts = <<>>
Next == Mutate \/ Resize
Spec == Init /\ [][Next]_vars

(* the code's own encoding is one the decoder of this specification reads *)
OriginalParses == Parse(Orig).ok
(* the format is injective: equal proofs have equal encodings, up to the explicit empty second phase *)
Injective == (Same /\ \A i \in 1..Len(muts) : muts[i].op \notin {"flag1"}) => toks = Orig
Emit == (MaxMut = 1 \/ Len(muts) = MaxMut) => PrintT("@@" \o ToJson([k |-> k - 1, muts |-> muts, exp |-> IF Same THEN "same" ELSE "refuse"]))
=============================================================================
