------------------------------ MODULE CurveTree ------------------------------
(***************************************************************************)
(* The shape of a curve tree, as pure definitions.                         *)
(*                                                                         *)
(* A leaf is [v |-> name].  An inner node is [h, n, c]: its height, the    *)
(* number of leaves below it and the sequence of its children (at most L;  *)
(* the other slots are empty).  Symbols stand for commitments: two nodes   *)
(* have the same commitments exactly when they are the same symbol.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE FitAt(_, _, _)
FitAt(L, n, h) == IF Pow(L, h) >= n THEN h ELSE FitAt(L, n, h + 1)
MinHeight(L, n) == FitAt(L, n, 0)

IsLeaf(t) == "v" \in DOMAIN t
Leaf(v) == [v |-> v]
HeightOf(t) == IF IsLeaf(t) THEN 0 ELSE t.h
CountOf(t) == IF IsLeaf(t) THEN 1 ELSE t.n
Node(cs) == [h |-> HeightOf(cs[1]) + 1, n |-> FoldLeft(LAMBDA a, t : a + CountOf(t), 0, cs), c |-> cs]
RECURSIVE LeavesOf(_)
LeavesOf(t) == IF IsLeaf(t) THEN << t.v >> ELSE FlattenSeq([i \in 1..Len(t.c) |-> LeavesOf(t.c[i])])
(* consecutive groups of L, the last possibly shorter *)
Groups(L, s) == [i \in 1..((Len(s) + L - 1) \div L) |-> SubSeq(s, (i - 1) * L + 1, Min2(i * L, Len(s)))]
RECURSIVE Reduce(_, _)
Reduce(L, forest) == IF Len(forest) = 1 THEN forest[1] ELSE Reduce(L, LET g == Groups(L, forest) IN [i \in 1..Len(g) |-> Node(g[i])])
RECURSIVE Raise(_, _)
Raise(t, h) == IF HeightOf(t) >= h THEN t ELSE Raise(Node(<< t >>), h)
Build(L, set, h) == Raise(Reduce(L, [i \in 1..Len(set) |-> Leaf(set[i])]), h)

(* the node on the path to leaf `index` (from 0) whose height is k; <<>> when the slot is empty *)
RECURSIVE At(_, _, _, _)
At(L, t, index, k) ==
  IF HeightOf(t) = k THEN << t >>
  ELSE LET i == (index % Pow(L, HeightOf(t))) \div Pow(L, HeightOf(t) - 1) IN
       IF i + 1 > Len(t.c) THEN <<>> ELSE At(L, t.c[i + 1], index, k)

(* ---- what "right shape" means, independently of the construction ---- *)
RECURSIVE Wide(_, _)
Wide(L, t) ==   \* every node has 1..L children of one height; all but the last are full
  IsLeaf(t) \/ /\ Len(t.c) \in 1..L
               /\ \A i \in 1..Len(t.c) : HeightOf(t.c[i]) = t.h - 1 /\ Wide(L, t.c[i])
               /\ \A i \in 1..(Len(t.c) - 1) : CountOf(t.c[i]) = Pow(L, t.h - 1)
               /\ t.n = Len(LeavesOf(t))
=============================================================================
