----------------------------- MODULE Generators -----------------------------
(***************************************************************************)
(* Generator sets as a state machine.  A set is created for some parties   *)
(* with some capacity and then only grows; two sets are in use at a time   *)
(* so that sets of different history meet.  A generator is named by kind,  *)
(* party and position, never by the history of its set: replay binds each  *)
(* name to the first point seen under it, and every later answer must      *)
(* agree.  Different names must be bound to different points.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Caps, Parties, MaxOps, MinEmit, Queries   \* Queries: TRUE also asks in the middle

VARIABLES sets, log, done
vars == <<sets, log, done>>

Min2(a, b) == IF a < b THEN a ELSE b
Name(kind, party, i) == <<kind, party, i>>
(* the answer to "the first n generators of a party" *)
Prefix(s, n) == Min2(n, sets[s].cap)

Init == sets = <<>> /\ log = <<>> /\ done = FALSE
More == ~done /\ Len(log) < MaxOps
Rec(r) == log' = Append(log, r)

Create ==
  /\ More /\ Len(sets) < 2
  /\ \E c \in Caps, p \in Parties :
       /\ sets' = Append(sets, [cap |-> c, parties |-> p])
       /\ Rec([op |-> "new", s |-> Len(sets), cap |-> c, parties |-> p, exp |-> c])
  /\ UNCHANGED done
Grow ==
  /\ More
  /\ \E s \in 1..Len(sets), c \in Caps :
       LET now == IF c > sets[s].cap THEN c ELSE sets[s].cap IN
       /\ sets' = [sets EXCEPT ![s].cap = now]
       /\ Rec([op |-> "grow", s |-> s - 1, cap |-> c, exp |-> now])
  /\ UNCHANGED done
Clone ==   \* a copy grows independently of the original
  /\ More /\ Len(sets) = 1 /\ sets' = Append(sets, sets[1]) /\ Rec([op |-> "clone", s |-> 0, exp |-> sets[1].cap])
  /\ UNCHANGED done
Query ==
  /\ Queries /\ More
  /\ \E s \in 1..Len(sets), n \in { 0, 1, 7, 200 } : \E j \in (0..(sets[s].parties - 1)) :
       Rec([op |-> "ask", s |-> s - 1, party |-> j, n |-> n, exp |-> Prefix(s, n)])
  /\ UNCHANGED <<sets, done>>
(* everything is asked for at the end *)
Finish ==
  /\ ~done /\ Len(log) >= MinEmit /\ sets # <<>>
  /\ done' = TRUE
  /\ Rec([op |-> "all", exp |-> [s \in 1..Len(sets) |-> [cap |-> sets[s].cap, parties |-> sets[s].parties]]])
  /\ UNCHANGED sets
Next == Create \/ Grow \/ Clone \/ Query \/ Finish
Spec == Init /\ [][Next]_vars

(* capacity never shrinks *)
NeverShrinks == [][\A s \in 1..Len(sets) : sets'[s].cap >= sets[s].cap]_vars

Emit == done => PrintT("@@" \o ToJson(log))
=============================================================================
