------------------------------- MODULE Member -------------------------------
(***************************************************************************)
(* Membership proofs in curve trees, single (M = 1) and batched.           *)
(*                                                                         *)
(* A prover walks M paths from the root downwards.  Each step publishes    *)
(* the next commitments and claims a list of siblings.  An honest prover   *)
(* follows the tree to the leaves it was asked for.  A dishonest one may   *)
(* once step to something that is not among the siblings, claim other      *)
(* siblings, stop above the leaves, go on below a leaf that happens to be  *)
(* a commitment to further nodes, or shift two members of a batch against  *)
(* each other.  The published path or the proofs may be altered            *)
(* afterwards, and the verifier may hold another tree.                     *)
(***************************************************************************)
EXTENDS CurveTree
CONSTANTS Ls, Ms, Apis, Sizes, Wants, Patterns,
          Strategies,   \* dishonest steps explored
          Alts,         \* alterations of the published path explored
          Others,       \* other trees the verifier may hold
          AllIndices,   \* TRUE: every index (and some without a leaf); FALSE: a few
          MaxHeight

VARIABLES L, M, api, set, want, idx, cur, steps, strat, phase, alt, vset, vwant
vars == <<L, M, api, set, want, idx, cur, steps, strat, phase, alt, vset, vwant>>

SetOf(n, p) == [i \in 1..n |-> CASE p = "distinct" -> i
                                 [] p = "same" -> 1
                                 [] p = "craft" -> IF i = (n + 1) \div 2 THEN 200 + i ELSE i]
Craft(v) == v >= 200 /\ v < 300
Tree == Build(L, set, want)
(* a crafted leaf opens to an inner node over a further leaf *)
Kids(t) == IF ~IsLeaf(t) THEN t.c ELSE IF Craft(t.v) THEN << Node(<< Leaf(t.v + 100) >>) >> ELSE <<>>
(* a subtree unrelated to any tree here *)
RECURSIVE Foreign(_, _)
Foreign(h, m) == IF h = 0 THEN Leaf(400 + m) ELSE Node(<< Foreign(h - 1, m) >>)

Indices(cap, n) == IF AllIndices THEN 0..(cap + 1) ELSE { i \in {0, 1, n - 1, cap - 1} : i >= 0 }
Init ==
  /\ L \in Ls /\ M \in Ms /\ api \in Apis /\ (api = "single" => M = 1)
  /\ \E n \in Sizes, p \in Patterns : set = SetOf(n, p)
  /\ want \in Wants
  /\ HeightOf(Tree) >= 1 /\ HeightOf(Tree) <= MaxHeight
  /\ idx \in [1..M -> Indices(Pow(L, HeightOf(Tree)), Len(set))]
  /\ cur = [m \in 1..M |-> Tree] /\ steps = <<>> /\ strat = "honest" /\ phase = "walk"
  /\ alt = [k |-> "none", c |-> "", i |-> 0, j |-> 0] /\ vset = set /\ vwant = want

Level == HeightOf(cur[1])    \* all members are at the same height
Slot(m) == (idx[m] % Pow(L, Level)) \div Pow(L, Level - 1)
Real == \A m \in 1..M : idx[m] < Pow(L, HeightOf(Tree)) /\ At(L, Tree, idx[m], 0) # <<>>
Child(s, d) == [s |-> s, d |-> d]
Step(sib, child, next) == steps' = Append(steps, [sib |-> sib, child |-> child]) /\ cur' = next
Sibs == [m \in 1..M |-> Kids(cur[m])]
(* below the point where a dishonest step left the tree, the first child is followed *)
PickOf(m) == IF strat = "honest" \/ Slot(m) + 1 <= Len(Kids(cur[m])) THEN Kids(cur[m])[Slot(m) + 1] ELSE Kids(cur[m])[1]
Pick == [m \in 1..M |-> PickOf(m)]
Same == UNCHANGED <<L, M, api, set, want, idx, alt, vset, vwant>>

Refused == /\ phase = "walk" /\ steps = <<>> /\ ~Real /\ phase' = "done" /\ UNCHANGED <<strat, steps, cur>> /\ Same
Down ==
  /\ phase = "walk" /\ Real /\ Level > 0
  /\ Step(Sibs, [m \in 1..M |-> Child(Pick[m], 0)], Pick)
  /\ UNCHANGED <<strat, phase>> /\ Same
Cheat(s) == strat = "honest" /\ s \in Strategies /\ strat' = s
(* member b steps to something that is not there *)
WrongChild ==
  /\ phase = "walk" /\ Real /\ Level > 0 /\ Cheat("child")
  /\ \E b \in 1..M :
       LET f == [Pick EXCEPT ![b] = Foreign(Level - 1, b)] IN Step(Sibs, [m \in 1..M |-> Child(f[m], 0)], f)
  /\ UNCHANGED phase /\ Same
(* member b claims other siblings, at one position *)
WrongSibs ==
  /\ phase = "walk" /\ Real /\ Level > 0 /\ Cheat("siblings")
  /\ \E b \in 1..M, at \in {"own", "extra"} :
       LET new == Foreign(Level - 1, b)
           f == [Pick EXCEPT ![b] = new]
           fs == [Sibs EXCEPT ![b] = IF at = "own" THEN [i \in 1..Len(@) |-> IF @[i] = Pick[b] THEN new ELSE @[i]]
                                      ELSE IF Len(@) < L THEN Append(@, new) ELSE [@ EXCEPT ![L] = new]]
       IN Step(fs, [m \in 1..M |-> Child(f[m], 0)], f)
  /\ UNCHANGED phase /\ Same
(* an inner node is presented as the leaf *)
StopEarly ==
  /\ phase = "walk" /\ steps # <<>> /\ Level > 0 /\ Level % 2 = 0 /\ Cheat("stop")
  /\ phase' = "alter" /\ UNCHANGED <<steps, cur>> /\ Same
(* a leaf is presented as an inner node *)
GoOn ==
  /\ phase = "walk" /\ steps # <<>> /\ Level = 0 /\ Cheat("deeper") /\ \A m \in 1..M : Craft(cur[m].v)
  /\ LET k1 == [m \in 1..M |-> Kids(cur[m])]
         c1 == [m \in 1..M |-> k1[m][1]]
         k2 == [m \in 1..M |-> Kids(c1[m])]
         c2 == [m \in 1..M |-> k2[m][1]]
     IN /\ steps' = steps \o << [sib |-> k1, child |-> [m \in 1..M |-> Child(c1[m], 0)]],
                                 [sib |-> k2, child |-> [m \in 1..M |-> Child(c2[m], 0)]] >>
        /\ cur' = c2
  /\ phase' = "alter" /\ Same
(* two members are shifted against each other; their sum, which is all that is published above the leaves, is right *)
Cancel ==
  /\ phase = "walk" /\ Real /\ M > 1 /\ Level > 1 /\ Cheat("cancel")
  /\ \E a \in 1..M, b \in 1..M : a # b /\
       Step(Sibs, [m \in 1..M |-> Child(Pick[m], IF m = a THEN 1 ELSE IF m = b THEN -1 ELSE 0)], Pick)
  /\ UNCHANGED phase /\ Same
Arrive == /\ phase = "walk" /\ steps # <<>> /\ Level = 0 /\ phase' = "alter" /\ UNCHANGED <<strat, steps, cur>> /\ Same

(* ---- what is published -------------------------------------------------- *)
Len1 == Len(steps)
EvenAt == { s \in 1..(Len1 - 1) : (Len1 - s) % 2 = 0 }   \* steps whose child is on the even curve, but not the leaves
OddAt  == { s \in 1..(Len1 - 1) : (Len1 - s) % 2 = 1 }
NumEven == Cardinality(EvenAt)
NumOdd  == Cardinality(OddAt)
Slots(c) == CASE c = "even" -> NumEven [] c = "odd" -> NumOdd [] c = "sel" -> M
One == {"rerun", "random", "identity", "negate", "shift", "otherrun"}
Alter ==
  /\ phase = "alter" /\ phase' = "verify"
  /\ \/ UNCHANGED alt
     \/ strat = "honest" /\ \E c \in {"even", "odd", "sel"} :
          \/ \E k \in One \cap Alts, i \in 1..Slots(c) : alt' = [k |-> k, c |-> c, i |-> i - 1, j |-> 0]
          \/ \E k \in {"move", "swap"} \cap Alts, i \in 1..Slots(c), j \in 1..Slots(c) :
               /\ i # j /\ (k = "swap" => i < j) /\ alt' = [k |-> k, c |-> c, i |-> i - 1, j |-> j - 1]
          \/ \E k \in {"drop", "dup"} \cap Alts, i \in 1..Slots(c) : c # "sel" /\ alt' = [k |-> k, c |-> c, i |-> i - 1, j |-> 0]
          \/ "push" \in Alts /\ c # "sel" /\ alt' = [k |-> "push", c |-> c, i |-> Slots(c), j |-> 0]
          \/ \E k \in {"mix", "mixother"} \cap Alts : c # "sel" /\ alt' = [k |-> k, c |-> c, i |-> 0, j |-> 0]
  /\ UNCHANGED <<L, M, api, set, want, idx, cur, steps, strat, vset, vwant>>
Verify ==
  /\ phase = "verify" /\ phase' = "done"
  /\ \/ UNCHANGED <<vset, vwant>>
     \/ alt.k = "none" /\ \E o \in Others :
          CASE o = "leaf"   -> vset' = [set EXCEPT ![idx[1] + 1] = 500] /\ vwant' = want
            [] o = "other"  -> Len(set) > 1 /\ vset' = [set EXCEPT ![((idx[1] + 1) % Len(set)) + 1] = 500] /\ vwant' = want
            [] o = "grow"   -> vset' = Append(set, 500) /\ vwant' = want
            [] o = "raise"  -> vset' = set /\ vwant' = HeightOf(Tree) + 1
            [] o = "raise2" -> vset' = set /\ vwant' = HeightOf(Tree) + 2
            [] o = "turn"   -> Len(set) > 1 /\ vset' = Append(Tail(set), set[1]) /\ vwant' = want
  /\ UNCHANGED <<L, M, api, set, want, idx, cur, steps, strat, alt>>
Next == Refused \/ Down \/ WrongChild \/ WrongSibs \/ StopEarly \/ GoOn \/ Cancel \/ Arrive \/ Alter \/ Verify
Spec == Init /\ [][Next]_vars

(* ---- the verdict -------------------------------------------------------- *)
VTree == Build(L, vset, vwant)
(* every step's child is a sibling, and siblings are what the parent (at the top: the root) contains *)
Linked == \A m \in 1..M, s \in 1..Len1 :
  /\ steps[s].child[m].d = 0 /\ steps[s].child[m].s \in ToSet(steps[s].sib[m])
  /\ steps[s].sib[m] = IF s = 1 THEN VTree.c ELSE Kids(steps[s - 1].child[m].s)
AltAccepts == alt.k = "none" \/ (alt.k \in {"mix", "mixother"} /\ alt.c = "even" /\ Len1 = 1)   \* nothing to prove on the even curve
Verdict == IF ~Real THEN "refuse"
           ELSE IF Linked /\ Len1 = HeightOf(VTree) /\ AltAccepts THEN "accept" ELSE "reject"
(* the guarantee: what is accepted is a leaf of the verifier's tree *)
Sound == (phase = "done" /\ Verdict = "accept") =>
           \A m \in 1..M : LET s == steps[Len1].child[m].s IN IsLeaf(s) /\ s.v \in ToSet(LeavesOf(VTree))
(* without comparing lengths it would not hold; TLC shows it when this is checked instead *)
SoundWithoutLength == (phase = "done" /\ Real /\ Linked) =>
           \A m \in 1..M : LET s == steps[Len1].child[m].s IN IsLeaf(s) /\ s.v \in ToSet(LeavesOf(VTree))
Complete == (phase = "done" /\ Real /\ strat = "honest" /\ alt.k = "none" /\ VTree = Tree) => Verdict = "accept"

Emit == phase = "done" => PrintT("@@" \o ToJson(
  [L |-> L, M |-> M, api |-> api, set |-> set, want |-> want, idx |-> idx, strat |-> strat, steps |-> steps,
   alt |-> alt, vset |-> vset, vwant |-> vwant, exp |-> Verdict, h |-> HeightOf(Tree), vh |-> HeightOf(VTree),
   ne |-> NumEven, no |-> NumOdd]))
=============================================================================
