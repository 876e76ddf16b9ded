------------------------------- MODULE Ledger -------------------------------
(***************************************************************************)
(* Histories of mints and payments over a ledger of coins (C12, C13).      *)
(*                                                                         *)
(* A coin has an owner and an amount.  The ledger is a sequence of coins;  *)
(* from time to time it is put into a tree, and coins in the tree can be   *)
(* spent, two at a time, into two new coins.  A payment may be made by     *)
(* people other than the owners, may claim what is not so, and may be      *)
(* composed without the library (raw), with amounts that are no 64-bit     *)
(* numbers and with range proofs of another width (1000: none at all).      *)
(*                                                                         *)
(* An amount <<a, b>> stands for a*2^63 + b, b small.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Owners, Sums,          \* owners; amounts of the first coins
          Deltas,                \* how far a payment is off: amounts added to the last output
          Firsts,                \* amounts of the first output
          Forms,                 \* ways of spending an input, besides "own"
          Raws,                  \* amounts of outputs composed without the library
          Widths,                \* widths of range proofs tried with them
          Thefts,                \* ways of opening a coin falsely
          Coins0, MaxPours, Heights, Branching, Mints, Receivers

VARIABLES coins,     \* [o: owner, x: amount, by: "new" | "mint" | "pour"]
          spent,     \* coins spent by accepted payments
          tree,      \* how many coins are in the tree
          hist, pours, L, done
vars == <<coins, spent, tree, hist, pours, L, done>>

Z == <<0, 0>>
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Sub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
Fits(x) == \/ x[1] = 0 /\ x[2] >= 0
           \/ x[1] = 1
           \/ x[1] = 2 /\ x[2] < 0
(* sets of amounts for the configurations *)
Edges == {Z, <<0, 1>>, <<0, 42>>, <<1, -1>>, <<1, 0>>, <<1, 7>>, <<2, -2>>, <<2, -1>>}
Few   == {<<0, 5>>, <<1, 3>>, <<2, -1>>}
Small == {<<0, 5>>}
Off   == {Z, <<0, 1>>, <<0, -1>>, <<1, 0>>, <<-1, 0>>, <<2, 0>>, <<-2, 0>>, <<4, 0>>}
None  == {Z}
Near  == {Z, <<0, 1>>}
Big   == {<<2, 0>>, <<2, 9>>, <<0, -1>>, <<-1, 0>>, <<3, 0>>}
Empty == {}

Init == /\ coins = <<>> /\ spent = {} /\ tree = 0 /\ hist = <<>> /\ pours = 0 /\ done = FALSE
        /\ L \in Branching
Log(e) == hist' = Append(hist, e)
(* a coin made by someone trusted to do so *)
New == /\ Len(coins) < Coins0 /\ tree = 0
       /\ \E o \in Owners, x \in Sums :
            /\ coins' = Append(coins, [o |-> o, x |-> x, by |-> "new"]) /\ Log([op |-> "new", o |-> o, x |-> x])
       /\ UNCHANGED <<spent, tree, pours, L>>
(* a coin made with a proof that its amount is in range; w = 64 and a fitting amount is the library's own *)
Mint == /\ Mints /\ Len(coins) < Coins0 /\ tree = 0 /\ Len(hist) < Coins0 + 1
        /\ \E o \in Owners, x \in Sums \cup Raws, w \in Widths :
             /\ Fits(x) => w = 64
             /\ Log([op |-> "mint", o |-> o, x |-> x, w |-> w, exp |-> IF Fits(x) /\ w = 64 THEN "accept" ELSE "reject"])
             /\ coins' = IF Fits(x) /\ w = 64 THEN Append(coins, [o |-> o, x |-> x, by |-> "mint"]) ELSE coins
        /\ UNCHANGED <<spent, tree, pours, L>>
Include == /\ Len(coins) > tree /\ Len(coins) >= Coins0 /\ tree' = Len(coins)
           /\ \E h \in Heights : Log([op |-> "tree", n |-> Len(coins), h |-> h])
           /\ UNCHANGED <<coins, spent, pours, L>>

Pay(i, j, f, g, x0, x1, o0, o1, raw, w0, w1) ==
  LET balanced == Add(x0, x1) = Add(coins[i].x, coins[j].x)
      ok == /\ f = "own" /\ g = "own" /\ balanced /\ Fits(x0) /\ Fits(x1) /\ w0 = 64 /\ w1 = 64
      dup == i = j \/ i \in spent \/ j \in spent
  IN /\ Log([op |-> "pour", i |-> i - 1, j |-> j - 1, f |-> f, g |-> g, x0 |-> x0, x1 |-> x1, o0 |-> o0, o1 |-> o1,
             raw |-> raw, w0 |-> w0, w1 |-> w1, exp |-> IF ok THEN "accept" ELSE "reject", dup |-> dup, bal |-> balanced])
     \* the ledger takes an accepted payment unless it names a key named before
     /\ IF ok /\ ~dup THEN /\ spent' = spent \cup {i, j}
                           /\ coins' = coins \o << [o |-> o0, x |-> x0, by |-> "pour"], [o |-> o1, x |-> x1, by |-> "pour"] >>
        ELSE UNCHANGED <<spent, coins>>
     /\ pours' = pours + 1 /\ UNCHANGED <<tree, L>>
Pour ==
  /\ tree > 0 /\ pours < MaxPours
  /\ \E i \in 1..tree, j \in 1..tree, o0 \in Receivers, o1 \in Receivers, x0 \in Firsts, d \in Deltas,
        f \in Forms \cup {"own"}, g \in Forms \cup {"own"} :
       LET x1 == Add(Sub(Add(coins[i].x, coins[j].x), x0), d) IN
       Fits(x1) /\ Pay(i, j, f, g, x0, x1, o0, o1, FALSE, 64, 64)
(* composed without the library *)
RawPour ==
  /\ tree > 0 /\ pours < MaxPours /\ Raws # {}
  /\ \E i \in 1..tree, j \in 1..tree, x0 \in Raws \cup Firsts, w0 \in Widths, w1 \in Widths :
       LET x1 == Sub(Add(coins[i].x, coins[j].x), x0) IN
       /\ i # j /\ (~Fits(x0) \/ ~Fits(x1))
       /\ Pay(i, j, "own", "own", x0, x1, coins[i].o, coins[j].o, TRUE, w0, w1)
(* spends opening the published coin differently: with the payer's own tag, or with another amount *)
RawTheft ==
  /\ tree > 0 /\ pours < MaxPours
  /\ \E i \in 1..tree, j \in 1..tree, x0 \in Firsts, f \in Thefts, d \in Deltas, first \in BOOLEAN :
       LET x1 == Add(Sub(Add(coins[i].x, coins[j].x), x0), IF f = "revalue" THEN d ELSE Z) IN
       /\ i # j /\ Fits(x1) /\ (f = "revalue" => d # Z)
       /\ Pay(i, j, IF first THEN f ELSE "own", IF first THEN "own" ELSE f, x0, x1, coins[i].o, coins[j].o, TRUE, 64, 64)
Done == /\ Len(hist) > 0 /\ pours = MaxPours /\ hist[Len(hist)].op = IF MaxPours = 0 THEN "mint" ELSE "pour"
        /\ done' = TRUE /\ UNCHANGED <<coins, spent, tree, hist, pours, L>>
Next == ~done /\ (Done \/ (done' = FALSE /\ (New \/ Mint \/ Include \/ Pour \/ RawPour \/ RawTheft)))
Spec == Init /\ [][Next]_vars

(* ---- what the ledger guarantees ----------------------------------------- *)
RECURSIVE Total(_)
Total(S) == IF S = {} THEN Z ELSE LET i == CHOOSE i \in S : TRUE IN Add(coins[i].x, Total(S \ {i}))
All == 1..Len(coins)
(* nothing is created or lost by payments *)
Conserved == Total(All \ spent) = Total({ i \in All : coins[i].by # "pour" })
InRange == \A i \in All : Fits(coins[i].x)
(* coins are only spent by their owners, and once *)
Owned == \A k \in 1..Len(hist) : LET e == hist[k] IN (e.op = "pour" /\ e.exp = "accept") => e.f = "own" /\ e.g = "own"
Once == 2 * Cardinality({ k \in 1..Len(hist) : hist[k].op = "pour" /\ hist[k].exp = "accept" /\ ~hist[k].dup }) = Cardinality(spent)

Emit == done => PrintT("@@" \o ToJson([L |-> L, hist |-> hist]))
=============================================================================
