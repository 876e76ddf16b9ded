------------------------------ MODULE TreeBuild ------------------------------
(***************************************************************************)
(* Building trees level by level, raising them, and building variants of   *)
(* an earlier list: one leaf changed, two exchanged, one added or removed. *)
(***************************************************************************)
EXTENDS CurveTree
CONSTANTS Ls, Ms, Sizes, Wants, Patterns, MaxTrees, MinEmit

VARIABLES L, M, set, want, forest, trees, done
vars == <<L, M, set, want, forest, trees, done>>

SetOf(n, p) == [i \in 1..n |-> CASE p = "distinct" -> i [] p = "same" -> 1 [] p = "alternate" -> i % 2]
Init == /\ L \in Ls /\ M \in Ms /\ \E n \in Sizes, p \in Patterns : set = SetOf(n, p)
        /\ want \in Wants /\ forest = [i \in 1..Len(set) |-> Leaf(set[i])] /\ trees = <<>> /\ done = FALSE
Combine == /\ Len(forest) > 1
           /\ forest' = LET g == Groups(L, forest) IN [i \in 1..Len(g) |-> Node(g[i])]
           /\ UNCHANGED <<L, M, set, want, trees, done>>
Heighten == /\ Len(forest) = 1 /\ HeightOf(forest[1]) < want
            /\ forest' = << Node(<< forest[1] >>) >>
            /\ UNCHANGED <<L, M, set, want, trees, done>>
Built == Len(forest) = 1 /\ HeightOf(forest[1]) >= want
Finish(op) == trees' = Append(trees, [op |-> op, set |-> set, want |-> want, tree |-> forest[1]])
(* continue with the list (or height) changed in one place *)
Restart(s, w) == set' = s /\ want' = w /\ forest' = [i \in 1..Len(s) |-> Leaf(s[i])]
Fresh == 90 + Len(trees)
Places(s) == { 1, Len(s), (Len(s) + 1) \div 2 }
Vary ==
  /\ Built /\ ~done /\ Len(trees) + 1 < MaxTrees
  /\ Finish("build")
  /\ \/ \E i \in Places(set) : Restart([set EXCEPT ![i] = Fresh], want)
     \/ \E i \in Places(set), j \in Places(set) : i < j /\ Restart([set EXCEPT ![i] = set[j], ![j] = set[i]], want)
     \/ Restart(Append(set, Fresh), want)
     \/ Restart(Append(set, set[1]), want)
     \/ Len(set) > 1 /\ \E i \in Places(set) : Restart(RemoveAt(set, i), want)
     \/ Restart(set, HeightOf(forest[1]) + 1)
     \/ Restart(set, want)
  /\ UNCHANGED <<L, M, done>>
(* raise the finished tree itself, without rebuilding it *)
RaiseBuilt ==
  /\ Built /\ ~done /\ Len(trees) + 1 < MaxTrees
  /\ \E up \in {0, 1, 2} : want' = HeightOf(forest[1]) + up
  /\ trees' = Append(trees, [op |-> "raise", set |-> set, from |-> want, want |-> want', tree |-> Raise(forest[1], want')])
  /\ forest' = << Raise(forest[1], want') >>
  /\ UNCHANGED <<L, M, set, done>>
Stop == /\ Built /\ ~done /\ Len(trees) + 1 >= MinEmit /\ done' = TRUE /\ Finish("build") /\ UNCHANGED <<L, M, set, want, forest>>
Next == Combine \/ Heighten \/ Vary \/ RaiseBuilt \/ Stop
Spec == Init /\ [][Next]_vars

Right(t) ==
  /\ Wide(L, t.tree) /\ LeavesOf(t.tree) = t.set
  /\ HeightOf(t.tree) = Max2(MinHeight(L, Len(t.set)), t.want)
  /\ t.tree = Build(L, t.set, t.want)
RightShape == \A i \in 1..Len(trees) : Right(trees[i])
(* symbols of different lists or heights differ, and equal ones are equal *)
RootBinds == \A i \in 1..Len(trees), j \in 1..Len(trees) :
  (trees[i].tree = trees[j].tree) <=> (trees[i].set = trees[j].set /\ HeightOf(trees[i].tree) = HeightOf(trees[j].tree))
Emit == done => PrintT("@@" \o ToJson([L |-> L, M |-> M, trees |-> trees]))
=============================================================================
