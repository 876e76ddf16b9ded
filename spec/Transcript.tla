----------------------------- MODULE Transcript -----------------------------
(***************************************************************************)
(* What has been absorbed when each challenge is drawn.                    *)
(*                                                                         *)
(* The protocol as a sequence of stages; a recorded transcript of prover   *)
(* or verifier is stepped through event by event.  Every challenge belongs *)
(* to a stage, and all elements of the stages before it must have been     *)
(* absorbed by the transcript the challenge is drawn from (a copy of a     *)
(* transcript starts with what its original had absorbed).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES k, side, i, absorbed, drawn, bad
vars == <<k, side, i, absorbed, drawn, bad>>
R == Traces[k]
Ev == IF side = "p" THEN R.p ELSE R.v

(* ---- the protocol ----------------------------------------------------- *)
Els(r, n) == { <<r, j>> : j \in 0..(n - 1) }
Statement == Els("V", R.nv) \cup Els("C", R.nc) \cup { <<"num", R.nv>> }
Phase1 == { <<"AI1", 0>>, <<"AO1", 0>>, <<"S1", 0>> }
Phase2 == { <<"AI2", 0>>, <<"AO2", 0>>, <<"S2", 0>> }
Poly == { <<"T", R.t[d]>> : d \in 1..Len(R.t) }
Eval == { <<"tx", 0>>, <<"txb", 0>>, <<"eb", 0>> }
Fold(n) == Els("L", n) \cup Els("R", n)
NChal == R.zc + 5 + R.rounds
(* the elements that precede the n-th challenge *)
Before(n) ==
  LET j == n - R.zc IN
  Statement \cup Phase1
  \cup (IF j >= 1 THEN Phase2 ELSE {})                 \* y, z
  \cup (IF j >= 3 THEN Poly ELSE {})                   \* u, x
  \cup (IF j >= 5 THEN Eval ELSE {})                   \* w
  \cup (IF j >= 6 THEN Fold(j - 5) ELSE {})            \* folding challenges
(* stages only add elements, and the last stage has everything but the two final scalars *)
StagesGrow == \A n \in 1..(NChal - 1) : Before(n) \subseteq Before(n + 1)

(* ---- stepping through a recording ------------------------------------- *)
Ids == { Ev[e].t : e \in 1..Len(Ev) }
Init == /\ k \in 1..Len(Traces) /\ side \in {"p", "v"} /\ i = 1 /\ drawn = <<>> /\ bad = {}
        /\ absorbed = [t \in 0..8 |-> {}]
Set(e) == { <<e.el[j][1], e.el[j][2]>> : j \in 1..Len(e.el) } \cup (IF e.num >= 0 THEN { <<"num", e.num>> } ELSE {})
Step ==
  /\ i <= Len(Ev) /\ i' = i + 1 /\ UNCHANGED <<k, side>>
  /\ LET e == Ev[i] IN
     CASE e.e = "fork" -> absorbed' = [absorbed EXCEPT ![e.t] = absorbed[e.of]] /\ UNCHANGED <<drawn, bad>>
       [] e.e = "abs" -> absorbed' = [absorbed EXCEPT ![e.t] = @ \cup Set(e)] /\ UNCHANGED <<drawn, bad>>
       [] e.e = "chal" -> /\ drawn' = Append(drawn, e.raw) /\ UNCHANGED absorbed
                          /\ bad' = bad \cup { <<"challenge", Len(drawn) + 1, x>> : x \in Before(Len(drawn) + 1) \ absorbed[e.t] }
Done == i = Len(Ev) + 1
Next == Step
Spec == Init /\ [][Next]_vars

Raw(s) == [j \in 1..Len(s) |-> s[j].raw]
Problems ==
  bad \cup (IF Len(drawn) # NChal THEN { <<"number of challenges", Len(drawn), NChal>> } ELSE {})
      \cup (IF Cardinality(ToSet(drawn)) # Len(drawn) \/ Cardinality(ToSet(R.scal)) # Len(R.scal) THEN { <<"equal challenges", 0, 0>> } ELSE {})
      \cup (IF Raw(R.p) # Raw(R.v) THEN { <<"prover and verifier absorb different values", 0, 0>> } ELSE {})
Emit == Done => PrintT("@@" \o ToJson([k |-> R.k, side |-> side, bad |-> SetToSeq(Problems)]))
=============================================================================
