---------------------------- MODULE BatchWeights ----------------------------
(***************************************************************************)
(* What a batch with errors c (multiples of one point of order Q) accepts, *)
(* when every member but the first gets a fresh uniform weight: the        *)
(* fraction of weight choices with  c1 + w2 c2 + ... = 0  (mod Q).         *)
(* TLC counts the choices; the harness measures the code's acceptance.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Q
VARIABLE c
Patterns2 == 0..(Q - 1)
Patterns3 == {0, 1, Q - 1, 2, 5}
Dot(w) == LET S[i \in 0..Len(c)] == IF i = 0 THEN 0 ELSE S[i - 1] + w[i] * c[i] IN S[Len(c)]
W == { w \in [1..Len(c) -> 0..(Q - 1)] : w[1] = 1 }
Choices == IF Len(c) = 2 THEN { w \in 0..(Q - 1) : (c[1] + w * c[2]) % Q = 0 }
           ELSE { w \in (0..(Q - 1)) \X (0..(Q - 1)) : (c[1] + w[1] * c[2] + w[2] * c[3]) % Q = 0 }
Total == IF Len(c) = 2 THEN Q ELSE Q * Q
Init == c \in { <<a, b>> : a \in Patterns2, b \in Patterns2 } \cup { <<a, b, d>> : a \in Patterns3, b \in Patterns3, d \in Patterns3 }
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Honest == \A i \in 1..Len(c) : c[i] % Q = 0
(* at most one choice in Q collects a non-zero error *)
Rare == ~Honest => Cardinality(Choices) * Q <= Total
Emit == PrintT("@@" \o ToJson([c |-> c, acc |-> Cardinality(Choices), tot |-> Total]))
=============================================================================
