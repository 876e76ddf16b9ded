------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* Batch verification of verification equations.                           *)
(*                                                                         *)
(* A member is an equation whose value is a point; the equation of a       *)
(* correct proof is worth the identity.  A member is described by its      *)
(* shape (how many generators it uses and what it was made from) and its   *)
(* error: a combination of independent directions ("X" an extra point, the *)
(* two Pedersen bases, first and last generators of its own range, "bad"   *)
(* the error of a really invalid proof of that shape).  A batch combines   *)
(* its members with weights.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shapes, Kinds, Dirs, MaxCoef, MaxMembers, MinEmit, Field
VARIABLES members, done
vars == <<members, done>>

Coefs == (-MaxCoef..MaxCoef) \ {0}
Err == {[d |-> "0", c |-> 0]} \cup [d : Dirs, c : Coefs]
(* Generators are shared between shapes, so errors along them meet in the batch: *)
(* the last generator of a small circuit is an inner one of a larger circuit.    *)
Basis(m) ==
  CASE m.e.d = "G0" -> <<"G", 0>> [] m.e.d = "H0" -> <<"H", 0>>
    [] m.e.d = "Gl" -> <<"G", m.n - 1>> [] m.e.d = "Hl" -> <<"H", m.n - 1>>
    [] m.e.d = "bad" -> <<"bad", m.n>> [] OTHER -> <<m.e.d, 0>>
Good(m) == m.e.c = 0
(* the documented meaning *)
Accepts == \A i \in 1..Len(members) : Good(members[i])
(* what a given choice of weights collects: every basis element's coefficient is zero modulo Field *)
Collected(w) ==
  \A b \in { Basis(members[i]) : i \in 1..Len(members) } :
    LET S[i \in 0..Len(members)] ==
          IF i = 0 THEN 0 ELSE S[i - 1] + (IF Basis(members[i]) = b THEN w[i] * members[i].e.c ELSE 0)
    IN S[Len(members)] % Field = 0
Weights == { w \in [1..Len(members) -> 0..(Field - 1)] : w[1] = 1 }
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
(* Combining with unpredictable weights decides the documented meaning: a good batch passes for all  *)
(* weights, any other one for at most one in Field choices.                                          *)
WeightsDecide ==
  (done /\ Len(members) <= 3) =>
    LET ok == Cardinality({ w \in Weights : Collected(w) }) IN
    IF Accepts THEN ok = Pow(Field, Len(members) - 1)
    ELSE ok <= (IF Len(members) = 1 THEN 0 ELSE Pow(Field, Len(members) - 2))

Init == members = <<>> /\ done = FALSE
Add == /\ ~done /\ Len(members) < MaxMembers
       /\ \E n \in Shapes, kind \in Kinds, e \in Err :
            members' = Append(members, [n |-> n, kind |-> kind, e |-> e])
       /\ UNCHANGED done
Again == /\ ~done /\ Len(members) < MaxMembers /\ Len(members) >= 2   \* a member repeated or negated
         /\ \E i \in 1..Len(members), s \in {1, -1} :
              members' = Append(members, [members[i] EXCEPT !.e.c = s * @])
         /\ UNCHANGED done
Finish == ~done /\ members # <<>> /\ done' = TRUE /\ UNCHANGED members
Next == Add \/ Again \/ Finish
Spec == Init /\ [][Next]_vars

MaxN == CHOOSE n \in Shapes : /\ \E i \in 1..Len(members) : members[i].n = n
                              /\ \A i \in 1..Len(members) : members[i].n <= n
UnitCancel == Collected([i \in 1..Len(members) |-> 1])
Emit == (done /\ Len(members) >= MinEmit) =>
  PrintT("@@" \o ToJson([m |-> members, n |-> MaxN, exp |-> IF Accepts THEN "ok" ELSE "no", cancel |-> ~Accepts /\ UnitCancel]))
=============================================================================
