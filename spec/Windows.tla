------------------------------ MODULE Windows ------------------------------
(***************************************************************************)
(* The standard tables of the re-randomization circuit, as multiples of    *)
(* the blinding generator H in a group of order q.  A record holds, for    *)
(* every window, the discrete logarithms of its eight entries.             *)
(* The digits of a scalar select one entry per window; the entries' sum    *)
(* must be the scalar.  No partial sum may meet the entry it is added to   *)
(* before the last window, since those additions are not checked.          *)
(*                                                                         *)
(* Part "scalars" emits boundary scalars s * 2^k + a for the real curves.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Part, MaxBit, Offsets, Step
VARIABLES k, r, w, acc, hit
vars == <<k, r, w, acc, hit>>
Recs == IF Part = "tables" THEN ndJsonDeserialize(IOEnv.RECORDS) ELSE <<>>
RECURSIVE Pow8(_)
Pow8(n) == IF n = 0 THEN 1 ELSE 8 * Pow8(n - 1)
T == Recs[k].logs
q == Recs[k].q
M == Len(T)
Digit(i) == (r \div Pow8(i - 1)) % 8
InitTables == /\ k \in 1..Len(Recs)
              /\ r \in { x \in 0..(Recs[k].q - 1) : x % Step = Recs[k].from % Step \/ x < 9 \/ x > Recs[k].q - 9 }
              /\ w = 0 /\ acc = 0 /\ hit = 0
Add == /\ w < M /\ w' = w + 1
       /\ LET t == T[w + 1][Digit(w + 1) + 1] IN
          /\ acc' = (acc + t) % q
          \* adding a point to itself or to its opposite, or ending at infinity
          /\ hit' = IF hit = 0 /\ ((w > 0 /\ (acc = t \/ (acc + t) % q = 0)) \/ t = 0) THEN w + 1 ELSE hit
       /\ UNCHANGED <<k, r>>
InitScalars == k \in 0..MaxBit /\ r \in Offsets /\ acc \in {0, 1} /\ w = 0 /\ hit = 0
Init == IF Part = "tables" THEN InitTables ELSE InitScalars
Next == Part = "tables" /\ Add
Spec == Init /\ [][Next]_vars
(* the windows hold every scalar *)
Wide == Part = "tables" => Pow8(M) >= q
SumIsScalar == Part = "tables" /\ w = M => acc = r
(* unchecked additions are never exceptional as long as the windows do not wrap around *)
Unchecked == Part = "tables" /\ hit # 0 => hit = M \/ 15 * Pow8(hit - 1) >= q
Emit == Part = "scalars" => PrintT("@@" \o ToJson([s |-> acc, k |-> k, a |-> r - 2]))
=============================================================================
