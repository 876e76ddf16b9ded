----------------------------- MODULE R1csSession -----------------------------
(***************************************************************************)
(* The prover/verifier session of the R1CS argument as a state machine.    *)
(*                                                                         *)
(* One action per public call of the constraint-system interface.  Prover  *)
(* and verifier run in lock step; at most one call is made with different  *)
(* arguments on the verifier's side (a deviation).  The state keeps the    *)
(* witness as integers, so the specification itself knows whether every    *)
(* constraint holds, which handle each call returns, the metrics after     *)
(* each call and the verdict at the end.  Completed behaviours are printed *)
(* as JSON and replayed against the real Prover and Verifier.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS
  MaxOps,        \* calls before finishing
  VecDims,       \* dimensions used for vector commitments
  MaxVecs,       \* bound on vector commitments
  MaxScalars,    \* bound on scalar commitments
  MaxGates,      \* bound on first-phase gates
  MaxCons,       \* bound on first-phase constraints added directly
  Devs,          \* kinds of verifier deviation explored ("none" always allowed)
  AllowBad,      \* TRUE: the prover may be given violated constraints
  MaxDefer,      \* bound on second-phase closures
  Kinds,         \* kinds of second-phase closures
  Mix,           \* TRUE: second-phase gates together with vector commitments (unsupported)
  Caps,          \* prover's generator capacities tried, relative to what is needed
  VCaps,         \* verifier's generator capacities tried
  MinEmit        \* do not finish behaviours shorter than this

VARIABLES
  scal,          \* committed scalar values (prover)
  vecs,          \* committed vectors (prover)
  gates,         \* <<left, right>> of each first-phase gate
  pend,          \* 0, or index of the half-assigned gate
  cons,          \* prover's first-phase constraints: [t |-> <<<<handle,coeff>>,...>>, c |-> constant]
  vcons, vlate,  \* verifier's first-phase constraints; vlate are added last
  vscal, vvecs,  \* verifier's view of the commitments
  defer, vdefer, \* deferred closures on the two sides
  log,           \* operations with expected observations
  dev,           \* deviation used so far ("none" or a kind)
  done

vars == <<scal, vecs, gates, pend, cons, vcons, vlate, vscal, vvecs, defer, vdefer, log, dev, done>>

Val(k) == ((k * 5 + 2) % 9) - 3

(* ---- handles ---------------------------------------------------------- *)
H(kind, i, j) == [k |-> kind, i |-> i, j |-> j]
Scalars  == [i \in 1..Len(scal) |-> H("C", i - 1, 0)]
VecH(v)  == [j \in 1..Len(vecs[v]) |-> H("V", v - 1, j - 1)]
GateH(g) == IF g = pend THEN << H("L", g - 1, 0) >>
                        ELSE << H("L", g - 1, 0), H("R", g - 1, 0), H("O", g - 1, 0) >>
Handles == Scalars \o FlattenSeq([v \in 1..Len(vecs) |-> VecH(v)])
                   \o FlattenSeq([g \in 1..Len(gates) |-> GateH(g)])
Value(h) == CASE h.k = "C" -> scal[h.i + 1]
              [] h.k = "V" -> vecs[h.i + 1][h.j + 1]
              [] h.k = "L" -> gates[h.i + 1][1]
              [] h.k = "R" -> gates[h.i + 1][2]
              [] h.k = "O" -> gates[h.i + 1][1] * gates[h.i + 1][2]
(* operands are drawn from the ends and the middle of the handle list *)
Pick == LET n == Len(Handles) IN
        IF n = 0 THEN {} ELSE { Handles[1], Handles[n], Handles[(n + 1) \div 2] }

PickSmall == { h \in Pick : Value(h) \in -60..60 }   \* keeps products within TLC's integers

EvalT(t) == FoldSeq(LAMBDA x, acc : acc + x[2] * Value(x[1]), 0, t)
Sat(c) == EvalT(c.t) + c.c = 0

(* ---- sizes ------------------------------------------------------------ *)
Max2(a, b) == IF a > b THEN a ELSE b
SizeOf(ng, vv) == FoldSeq(LAMBDA v, acc : Max2(acc, v.dim), ng, vv)
Dims(vv) == [i \in 1..Len(vv) |-> [dim |-> Len(vv[i])]]
RECURSIVE Pow2At(_, _)
Pow2At(p, n) == IF p >= n THEN p ELSE Pow2At(2 * p, n)
NextPow2(n) == Pow2At(1, n)
(* expected readings of size() and metrics() on the prover's and the verifier's side *)
Obs(hs, hv) == [h |-> hs, hv |-> hv,  \* returned handles and the values they stand for
            mult |-> Len(gates'),
            p |-> [c1 |-> Len(cons'),  c2 |-> Len(defer'),  size |-> SizeOf(Len(gates'), Dims(vecs'))],
            v |-> [c1 |-> Len(vcons'), c2 |-> Len(vdefer'), size |-> SizeOf(Len(gates'), vvecs')]]
Rec(op, args, vargs, hs, hv) ==
  log' = Append(log, [op |-> op, a |-> args, va |-> vargs, exp |-> Obs(hs, hv)])

Dev(S) == {"none"} \cup (IF dev = "none" THEN S \cap Devs ELSE {})
SetDev(d) == dev' = IF d = "none" THEN dev ELSE d

Init == /\ scal = <<>> /\ vecs = <<>> /\ gates = <<>> /\ pend = 0
        /\ cons = <<>> /\ vcons = <<>> /\ vlate = <<>> /\ vscal = <<>> /\ vvecs = <<>>
        /\ defer = <<>> /\ vdefer = <<>> /\ log = <<>> /\ dev = "none" /\ done = FALSE

More == ~done /\ Len(log) < MaxOps

(* ---- actions ---------------------------------------------------------- *)
Commit ==
  /\ More /\ Len(scal) < MaxScalars
  /\ \E d \in Dev({"comm", "blind"}) :
       LET v == Val(Len(log)) IN
       /\ SetDev(d)
       /\ scal' = Append(scal, v)
       /\ vscal' = Append(vscal, [alt |-> d])
       /\ UNCHANGED <<vecs, gates, pend, cons, vcons, vlate, vvecs, defer, vdefer, done>>
       /\ Rec("commit", [v |-> v], [alt |-> d], << H("C", Len(scal), 0) >>, << v >>)

(* deviations: another value at one coordinate, another blinding, or a larger dimension *)
CommitVec ==
  /\ More /\ Len(vecs) < MaxVecs
  /\ Mix \/ \A i \in 1..Len(defer) : defer[i].kind \notin {"zmul", "zalloc", "zgate"}
  /\ \E n \in VecDims :
     \E d \in Dev({"vblind", "vdim"} \cup (IF n > 0 THEN {"vfirst", "vlast"} ELSE {})) :
       LET v == [j \in 1..n |-> Val(Len(log) + j)] IN
       /\ SetDev(d)
       /\ vecs' = Append(vecs, v)
       /\ vvecs' = Append(vvecs, [dim |-> IF d = "vdim" THEN n + 1 ELSE n, alt |-> d])
       /\ UNCHANGED <<scal, gates, pend, cons, vcons, vlate, vscal, defer, vdefer, done>>
       /\ Rec("commit_vec", [v |-> v], [alt |-> d], [j \in 1..n |-> H("V", Len(vecs), j - 1)], v)

(* the first of two single allocations leaves a gate half assigned *)
Allocate ==
  /\ More /\ (pend # 0 \/ Len(gates) < MaxGates)
  /\ LET v == Val(Len(log)) IN
     /\ UNCHANGED <<scal, vecs, cons, vcons, vlate, vscal, vvecs, defer, vdefer, dev, done>>
     /\ IF pend = 0
        THEN /\ gates' = Append(gates, <<v, 0>>) /\ pend' = Len(gates) + 1
             /\ Rec("alloc", [v |-> v], [alt |-> "none"], << H("L", Len(gates), 0) >>, << v >>)
        ELSE /\ gates' = [gates EXCEPT ![pend] = <<@[1], v>>] /\ pend' = 0
             /\ Rec("alloc", [v |-> v], [alt |-> "none"], << H("R", pend - 1, 0) >>, << v >>)

(* the prover is not told a value: the documented error, and nothing changes *)
AllocateMissing ==
  /\ More /\ "missing" \in Devs
  /\ \E o \in {"alloc_missing", "mul_missing"} :
     /\ UNCHANGED <<scal, vecs, gates, pend, cons, vcons, vlate, vscal, vvecs, defer, vdefer, dev, done>>
     /\ Rec(o, [v |-> 0], [alt |-> "none"], <<>>, <<>>)

AllocateMultiplier ==
  /\ More /\ Len(gates) < MaxGates
  /\ LET l == Val(Len(log)) r == Val(Len(log) + 3) IN
       /\ gates' = Append(gates, <<l, r>>)
       /\ UNCHANGED <<scal, vecs, pend, cons, vcons, vlate, vscal, vvecs, defer, vdefer, dev, done>>
       /\ Rec("alloc_mul", [l |-> l, r |-> r], [alt |-> "none"],
              << H("L", Len(gates), 0), H("R", Len(gates), 0), H("O", Len(gates), 0) >>, << l, r, l * r >>)

(* multiply(a + c, k*b): creates a gate and two constraints *)
Multiply ==
  /\ More /\ Len(gates) < MaxGates
  /\ \E a \in PickSmall, b \in PickSmall, c \in {0, 2}, k \in {1, -2} :
     \E d \in Dev({"mulconst", "mulcoef"}) :
       LET g  == Len(gates)
           lv == Value(a) + c
           rv == k * Value(b)
           vc == IF d = "mulconst" THEN c + 1 ELSE c
           vk == IF d = "mulcoef" THEN k + 1 ELSE k
           lt == << <<a, 1>>, <<H("L", g, 0), -1>> >>
       IN
       /\ SetDev(d)
       /\ gates' = Append(gates, <<lv, rv>>)
       /\ cons'  = cons  \o << [t |-> lt, c |-> c],  [t |-> << <<b, k>>,  <<H("R", g, 0), -1>> >>, c |-> 0] >>
       /\ vcons' = vcons \o << [t |-> lt, c |-> vc], [t |-> << <<b, vk>>, <<H("R", g, 0), -1>> >>, c |-> 0] >>
       /\ UNCHANGED <<scal, vecs, pend, vlate, vscal, vvecs, defer, vdefer, done>>
       /\ Rec("mul", [a |-> a, c |-> c, b |-> b, k |-> k], [a |-> a, c |-> vc, b |-> b, k |-> vk, alt |-> d],
              << H("L", g, 0), H("R", g, 0), H("O", g, 0) >>, << lv, rv, lv * rv >>)

(* constrain k*a + m*b + c = 0, with c chosen to make it true, or off by one *)
Constrain ==
  /\ More /\ Len(cons) - 2 * Len(SelectSeq(log, LAMBDA e : e.op = "mul")) < MaxCons
  /\ \E a \in Pick, b \in Pick, km \in { <<2, -3>>, <<1, -1>> }, bad \in (IF AllowBad THEN {0, 1} ELSE {0}) :
     \E d \in Dev({"const", "coef", "drop", "dup", "var", "late"} \cup (IF bad = 1 THEN {"fixconst"} ELSE {})) :
       LET c  == bad - km[1] * Value(a) - km[2] * Value(b)
           t  == << <<a, km[1]>>, <<b, km[2]>> >>
           vt == CASE d = "coef" -> << <<a, km[1]>>, <<b, km[2] - 1>> >>
                   [] d = "var"  -> << <<b, km[1]>>, <<a, km[2]>> >>
                   [] OTHER -> t
           vc == CASE d = "const" -> c + 1 [] d = "fixconst" -> c - bad [] OTHER -> c
           vone == [t |-> vt, c |-> vc]
       IN
       /\ SetDev(d)
       /\ cons' = Append(cons, [t |-> t, c |-> c])
       /\ vcons' = CASE d \in {"drop", "late"} -> vcons
                     [] d = "dup" -> vcons \o << vone, vone >>
                     [] OTHER -> Append(vcons, vone)
       /\ vlate' = IF d = "late" THEN << vone >> ELSE vlate
       /\ UNCHANGED <<scal, vecs, gates, pend, vscal, vvecs, defer, vdefer, done>>
       /\ Rec("cons", [t |-> t, c |-> c], [t |-> vt, c |-> vc, alt |-> d], <<>>, << bad >>)

(* A deferred closure, run after the first-phase commitments.  Kinds:                   *)
(*   "zcon"  : z <- challenge; constrain z*a - z*k = 0            (k = value(a) + bad)  *)
(*   "zmul"  : z <- challenge; o <- multiply(z*a, b); constrain o - z*k = 0             *)
(*   "zalloc": x <- allocate(k); constrain x - k = 0     (a fresh half gate)            *)
(*   "zgate" : l,r,o <- allocate_multiplier(k, 2); constrain l + o - 3k = 0             *)
(*   "nop"   : nothing                                                                  *)
(*   "err"   : the closure reports an error                                             *)
GateKinds == {"zmul", "zalloc", "zgate"}
Defer ==
  /\ More /\ Len(defer) < MaxDefer
  /\ \E kind \in (IF Mix \/ vecs = <<>> THEN Kinds ELSE Kinds \ GateKinds) :
     \E a \in (IF kind = "zmul" THEN PickSmall ELSE IF kind = "zcon" THEN Pick ELSE {H("N", 0, 0)}),
        b \in (IF kind = "zmul" THEN PickSmall ELSE {H("N", 0, 0)}),
        bad \in (IF AllowBad /\ kind \in {"zcon", "zmul"} THEN {0, 1} ELSE {0}) :
     \E d \in Dev(IF kind \in {"nop", "err"} THEN {"zdrop"} ELSE {"zconst", "zdrop"}) :
       LET k == CASE kind = "zcon" -> Value(a) + bad
                  [] kind = "zmul" -> Value(a) * Value(b) + bad
                  [] OTHER -> Val(Len(log))
           one  == [kind |-> kind, a |-> a, b |-> b, k |-> k, bad |-> bad]
           vone == IF d = "zconst" THEN [one EXCEPT !.k = k + 1, !.bad = bad + 1] ELSE one
       IN
       /\ SetDev(d)
       /\ defer' = Append(defer, one)
       /\ vdefer' = IF d = "zdrop" THEN vdefer ELSE Append(vdefer, vone)
       /\ UNCHANGED <<scal, vecs, gates, pend, cons, vcons, vlate, vscal, vvecs, done>>
       /\ Rec("defer", one, [alt |-> d, kind |-> kind, a |-> a, b |-> b, k |-> vone.k], <<>>, <<>>)

(* ---- the second phase ------------------------------------------------- *)
(* Runs the closures: next gate index, half gate (or -1), challenges drawn, constraints *)
(* with symbolic challenge weights <<handle, coefficient, challenge>>, handles returned  *)
RunOne(st, d) ==
  LET g == st.g
      z == st.z + 1
      T(h, c, w) == <<h, c, w>>
      L == H("L", g, 0)  R == H("R", g, 0)  O == H("O", g, 0)
  IN
  CASE d.kind = "zcon" -> [st EXCEPT !.z = z, !.cs = Append(@, << T(d.a, 1, z) >>)]
    [] d.kind = "zmul" -> [st EXCEPT !.z = z, !.g = g + 1, !.hs = @ \o << L, R, O >>,
           !.cs = @ \o << << T(d.a, 1, z), T(L, -1, 0) >>, << T(d.b, 1, 0), T(R, -1, 0) >>, << T(O, 1, 0) >> >>]
    [] d.kind = "zalloc" ->
         IF st.half = -1
         THEN [st EXCEPT !.g = g + 1, !.half = g, !.hs = Append(@, L), !.cs = Append(@, << T(L, 1, 0) >>)]
         ELSE LET RR == H("R", st.half, 0) IN
              [st EXCEPT !.half = -1, !.hs = Append(@, RR), !.cs = Append(@, << T(RR, 1, 0) >>)]
    [] d.kind = "zgate" -> [st EXCEPT !.g = g + 1, !.hs = @ \o << L, R, O >>,
           !.cs = Append(@, << T(L, 1, 0), T(O, 1, 0) >>)]
    [] OTHER -> st
Phase2(ds, n1) == FoldLeft(RunOne, [g |-> n1, half |-> -1, z |-> 0, cs |-> <<>>, hs |-> <<>>], ds)

(* ---- verdict ---------------------------------------------------------- *)
HasErr(ds) == \E i \in 1..Len(ds) : ds[i].kind = "err"
Norm(t) ==  \* merged terms without zero coefficients, as a set
  LET keys == { <<x[1], x[3]>> : x \in ToSet(t) }
      coef(k) == FoldSeq(LAMBDA x, acc : IF <<x[1], x[3]>> = k THEN acc + x[2] ELSE acc, 0, t)
  IN { <<k, coef(k)>> : k \in { q \in keys : coef(q) # 0 } }
Tok(t) == [i \in 1..Len(t) |-> <<t[i][1], t[i][2], 0>>]
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = {} THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Flat(cs, p2) == Trim([i \in 1..Len(cs) |-> Norm(Tok(cs[i].t))] \o [i \in 1..Len(p2.cs) |-> Norm(p2.cs[i])])

(* what the verifier's challenges and weights depend on, given extra gates ng *)
Shape(cs, ds, ng, dims) ==
  LET n1 == SizeOf(ng, dims)  p2 == Phase2(ds, ng) IN
  \* an empty system is padded to one all-zero gate, so one more unconstrained gate is the same system
  [n1 |-> IF n1 + (p2.g - ng) = 0 THEN 1 ELSE n1, padded |-> NextPow2(n1 + (p2.g - ng)), z |-> p2.z, two |-> Len(ds) > 0, flat |-> Flat(cs, p2)]

PShape == Shape(cons, defer, Len(gates), Dims(vecs))
N1 == PShape.n1
Padded == PShape.padded
Gates2 == Phase2(defer, Len(gates)).g - Len(gates)
Unsupported == Gates2 > 0 /\ Len(vecs) > 0

SameCommitments == /\ \A i \in 1..Len(vscal) : vscal[i].alt = "none"
                   /\ \A i \in 1..Len(vvecs) : vvecs[i].alt \in {"none", "vdim"}
VTrue(vc) == /\ \A i \in 1..Len(vc) : Sat(vc[i])
             /\ \A i \in 1..Len(vdefer) : vdefer[i].bad = 0

CapOf(c, need) == CASE c = "exact" -> need [] c = "big" -> 2 * need + 3 [] c = "short" -> need - 1
Finish ==
  /\ ~done /\ Len(log) >= MinEmit
  /\ \E c \in Caps, vc \in VCaps, d \in Dev({"label", "vgate"}) :
       LET vcs == vcons \o vlate
           ng  == Len(gates) + (IF d = "vgate" THEN 1 ELSE 0)
           vs  == Shape(vcs, vdefer, ng, vvecs)
           verdict ==
             IF HasErr(defer) THEN [p |-> "gadget_error", v |-> "none"]
             ELSE IF Unsupported THEN [p |-> "unsupported", v |-> IF VTrue(vcs) /\ SameCommitments /\ PShape = vs /\ d # "label" THEN "accept" ELSE "reject"]
             ELSE IF c = "short" THEN [p |-> "gens", v |-> "none"]
             ELSE IF HasErr(vdefer) THEN [p |-> "ok", v |-> "gadget_error"]
             ELSE IF vc = "short" THEN [p |-> "ok", v |-> "gens"]
             ELSE [p |-> "ok", v |-> IF d # "label" /\ SameCommitments /\ PShape = vs /\ VTrue(vcs)
                                     THEN "accept" ELSE "reject"]
       IN
       \* committing a vector needs its generators too, so "short" only makes sense when gates decide the size
       /\ c = "short" => (Padded > 1 /\ SizeOf(0, Dims(vecs)) < Padded)
       /\ vc = "short" => vs.padded > 1
       /\ d = "vgate" => \A i \in 1..Len(vdefer) : vdefer[i].kind \in {"zcon", "nop"}
       /\ SetDev(d)
       /\ done' = TRUE
       /\ log' = Append(log, [op |-> "finish", a |-> [cap |-> CapOf(c, Padded), vcap |-> CapOf(vc, vs.padded)],
                    va |-> [alt |-> d, dev |-> dev'],
                    exp |-> [p |-> verdict.p, v |-> verdict.v, h2 |-> Phase2(defer, Len(gates)).hs, padded |-> Padded]])
       /\ UNCHANGED <<scal, vecs, gates, pend, cons, vcons, vlate, vscal, vvecs, defer, vdefer>>

Next == Commit \/ CommitVec \/ Allocate \/ AllocateMissing \/ AllocateMultiplier \/ Multiply
        \/ Constrain \/ Defer \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- invariants of the design ----------------------------------------- *)
HandlesDistinct == Cardinality(ToSet(Handles)) = Len(Handles)
PendingSane == pend # 0 => pend <= Len(gates) /\ gates[pend][2] = 0
LockStep == Len(vscal) = Len(scal) /\ Len(vvecs) = Len(vecs)
Final == log[Len(log)].exp
(* a verdict of "accept" needs a true statement about the same commitments *)
AcceptSound == (done /\ Final.v = "accept") =>
   /\ \A i \in 1..Len(vcons) : Sat(vcons[i])
   /\ dev \notin {"comm", "blind", "vblind", "vfirst", "vlast", "label"}
HonestComplete == (done /\ dev = "none" /\ Final.p = "ok" /\ Final.v \notin {"gens"}
                   /\ (\A i \in 1..Len(cons) : Sat(cons[i])) /\ (\A i \in 1..Len(defer) : defer[i].bad = 0))
                  => Final.v = "accept"
PaddingSound == done => /\ Padded >= N1 + Gates2
                        /\ (Padded = 1 \/ Padded < 2 * (N1 + Gates2))

Emit == done => PrintT("@@" \o ToJson(log))
=============================================================================
