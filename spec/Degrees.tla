------------------------------- MODULE Degrees -------------------------------
(***************************************************************************)
(* Which products of committed values reach the degree at which the        *)
(* verifier checks the constraint system.                                  *)
(*                                                                         *)
(* A commitment opens to components along two generator vectors; the       *)
(* verifier adds the whole commitment at one degree, so a dishonest prover *)
(* may put its first component into l(x) and its second into r(x), both at *)
(* that degree.  Only the gate inputs are meant to be in both.  The layout *)
(* (degree of every commitment) is read off the verification equation of   *)
(* the code; this module derives which unintended products are collected,  *)
(* and the harness turns each into an attempt to prove a false gate.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Layouts == ndJsonDeserialize(IOEnv.LAYOUTS)   \* [n, op, ai, ao, comms]
VARIABLES k, carrier, target
vars == <<k, carrier, target>>

Lay == Layouts[k]
(* index 0 is the output commitment, j the j-th vector commitment, -1 the input commitment *)
Index == -1..Len(Lay.comms)
Deg(j) == IF j = -1 THEN Lay.ai ELSE IF j = 0 THEN Lay.ao ELSE Lay.comms[j]
Init == /\ k \in 1..Len(Layouts) /\ carrier \in -1..18 /\ target \in -1..18
        /\ carrier \in Index /\ target \in Index
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Intended == carrier = -1 /\ target = -1
(* the second component of carrier meets the first component of target at the checked degree *)
Leaks == ~Intended /\ Deg(carrier) + Deg(target) = Lay.op
(* the degrees the protocol prescribes for a sound layout *)
SoundLayout ==
  /\ 2 * Lay.ai = Lay.op /\ Lay.ao <= Lay.op
  /\ \A a, b \in Index : a # b => Deg(a) # Deg(b)
  /\ \A a, b \in Index : (Deg(a) + Deg(b) = Lay.op) => (a = -1 /\ b = -1)
(* a sound layout has no leak: agreement of the two formulations *)
Consistent == SoundLayout => ~Leaks
Emit == (Leaks /\ carrier >= 0) =>
        PrintT("@@" \o ToJson([n |-> Lay.n, carrier |-> carrier, target |-> target]))
=============================================================================
