------------------------------- MODULE Gadget -------------------------------
(***************************************************************************)
(* What the gadgets' constraint systems admit.                             *)
(*                                                                         *)
(* A record holds the constraint system a gadget emitted over a field of p *)
(* elements: constraints c + sum of coefficients times variables = 0, and  *)
(* gates l * r = o, in program order.  Variables 1..nin are the gadget's   *)
(* inputs.  All satisfying assignments are found by propagation and        *)
(* branching, projected to the inputs, and compared with the documented    *)
(* relation, written here from the documentation.  A record also holds the *)
(* assignments the gadget produced itself; they must be satisfying         *)
(* whenever the relation holds and no exceptional case of the addition law *)
(* occurs.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Recs == ndJsonDeserialize(IOEnv.RECORDS)
P == Recs[1].p
F == 0..(P - 1)
InvTable == [x \in 1..(P - 1) |-> CHOOSE y \in F : (x * y) % P = 1]
Inv(x) == InvTable[x]

VARIABLES k, phase
vars == <<k, phase>>
Init == k \in 1..Len(Recs) /\ phase = "recorded"
Next == phase = "recorded" /\ phase' = "decided" /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
R == Recs[k]
C == R.case

(* ---- satisfying assignments -------------------------------------------- *)
None == -1
IsGate(it) == "g" \in DOMAIN it
(* wires that occur in one gate and in no constraint are free to be anything *)
Used(items) == UNION { IF IsGate(items[i]) THEN {} ELSE { items[i].t[j][1] : j \in 1..Len(items[i].t) } : i \in 1..Len(items) }
(* one step of propagation; items that can say nothing more are dropped *)
Keep(st, it) == [st EXCEPT !.rest = Append(@, it)]
Learn(st, v, x) == [st EXCEPT !.a[v] = x, !.ch = TRUE]
Apply(st, it) ==
  IF ~st.ok THEN st
  ELSE IF IsGate(it) THEN
    LET l == st.a[it.g[1]]  r == st.a[it.g[2]]  o == st.a[it.g[3]] IN
    IF l # None /\ r # None THEN
      IF o = None THEN Learn(st, it.g[3], (l * r) % P) ELSE [st EXCEPT !.ok = o = (l * r) % P]
    ELSE IF l = 0 \/ r = 0 THEN
      IF o = None THEN Learn(st, it.g[3], 0) ELSE [st EXCEPT !.ok = o = 0]
    ELSE IF o # None /\ l # None THEN Learn(st, it.g[2], (o * Inv(l)) % P)
    ELSE IF o # None /\ r # None THEN Learn(st, it.g[1], (o * Inv(r)) % P)
    ELSE Keep(st, it)
  ELSE
    LET f == FoldLeft(LAMBDA acc, t : IF st.a[t[1]] = None THEN <<acc[1], acc[2] + 1, t>> ELSE <<(acc[1] + t[2] * st.a[t[1]]) % P, acc[2], acc[3]>>,
                      <<it.c, 0, <<>> >>, it.t)
    IN IF f[2] = 0 THEN [st EXCEPT !.ok = f[1] = 0]
       ELSE IF f[2] = 1 THEN Learn(st, f[3][1], ((P - f[1]) * Inv(f[3][2])) % P)
       ELSE Keep(st, it)
RECURSIVE Fix(_)
Fix(st) == LET n == FoldLeft(Apply, [st EXCEPT !.ch = FALSE, !.rest = <<>>], st.rest) IN IF n.ok /\ n.ch THEN Fix(n) ELSE n
(* the inputs of all satisfying assignments extending st; order lists the variables to branch over *)
RECURSIVE Solve(_, _, _)
Solve(order, nin, st) ==
  LET n == Fix(st) IN
  IF ~n.ok THEN {}
  ELSE LET u == SelectSeq(order, LAMBDA v : n.a[v] = None) IN
       IF u = <<>> THEN { [i \in 1..nin |-> n.a[i]] }
       ELSE UNION { Solve(u, nin, [n EXCEPT !.a[u[1]] = x]) : x \in F }
Solutions(rec) ==
  LET nv == rec.nin + 3 * rec.ng
      used == Used(rec.items)
      wires == SelectSeq([i \in 1..(3 * rec.ng) |-> rec.nin + i], LAMBDA v : v \in used)
  IN Solve(wires \o [i \in 1..rec.nin |-> i], rec.nin, [ok |-> TRUE, ch |-> FALSE, rest |-> rec.items, a |-> [i \in 1..nv |-> None]])
Holds(rec, a) ==
  /\ Len(a) = rec.nin + 3 * rec.ng /\ \A i \in 1..Len(a) : a[i] \in F
  /\ \A i \in 1..Len(rec.items) : LET it == rec.items[i] IN
       IF IsGate(it) THEN (a[it.g[1]] * a[it.g[2]]) % P = a[it.g[3]]
       ELSE FoldLeft(LAMBDA acc, t : (acc + t[2] * a[t[1]]) % P, it.c, it.t) = 0

(* ---- points ------------------------------------------------------------ *)
m(x) == x % P
OnCurve(pt, a, b) == m(pt[2] * pt[2]) = m(pt[1] * m(pt[1] * pt[1]) + a * pt[1] + b)
(* the chord through two points with different x, and its third intersection negated *)
Chord(l, r, d) == LET xo == m(d * d - l[1] - r[1]) IN << xo, m(-(d * (xo - l[1])) - l[2]) >>
Slope(l, r) == m((r[2] - l[2]) * Inv(m(r[1] - l[1])))
Sum(l, r) == Chord(l, r, Slope(l, r))
(* incomplete addition: for equal points any line through the point will do; opposite points have no sum *)
AddAny(l, r) == IF l[1] # r[1] THEN { Sum(l, r) } ELSE IF l[2] = r[2] THEN { Chord(l, r, d) : d \in F } ELSE {}
AddChecked(l, r) == IF l[1] # r[1] THEN { Sum(l, r) } ELSE {}
(* what a sequence of windows may add up to *)
RECURSIVE Partial(_, _)
Partial(ts, i) ==
  IF i = 1 THEN ToSet(ts[1])
  ELSE UNION { UNION { IF i = Len(ts) THEN AddChecked(l, r) ELSE AddAny(l, r) : r \in ToSet(ts[i]) } : l \in Partial(ts, i - 1) }
ReRand(in, ts) == UNION { AddChecked(in, r) : r \in Partial(ts, Len(ts)) }
(* the partial sums for given digits; <<>> after an exceptional case *)
Walk(ts, ds) == FoldLeft(LAMBDA acc, i : IF acc = <<>> THEN <<>> ELSE LET t == ts[i][ds[i] + 1] IN IF acc[1] = t[1] THEN <<>> ELSE Sum(acc, t),
                         ts[1][ds[1] + 1], [i \in 1..(Len(ts) - 1) |-> i + 1])
Regular(in, ts, ds) == LET w == Walk(ts, ds) IN w # <<>> /\ w[1] # in[1]

Points(a, b) == { pt \in F \X F : OnCurve(pt, a, b) }
(* group addition, to shift the public point; infinity is <<>> *)
GAdd(l, r, a) ==
  IF l = <<>> THEN r ELSE IF r = <<>> THEN l
  ELSE IF l[1] # r[1] THEN Sum(l, r)
  ELSE IF m(l[2] + r[2]) = 0 THEN <<>>
  ELSE Chord(l, r, m((3 * m(l[1] * l[1]) + a) * Inv(m(2 * l[2]))))
Coords(pt) == IF pt = <<>> THEN <<0, 0>> ELSE pt

(* ---- the documented relations ------------------------------------------ *)
RECURSIVE Two(_)
Two(n) == IF n = 0 THEN 1 ELSE 2 * Two(n - 1)
Vectors(n) == [1..n -> F]
Xs(in) == IF "const" \in DOMAIN C THEN C.const ELSE in
Single(in) ==
  LET xs == ToSet(Xs(in)) target == Coords(GAdd(C.out, C.delta, C.a))
  IN \E ch \in Points(C.a, C.b) : ch[1] \in xs /\ target \in ReRand(ch, C.tables)
Batch(in) ==
  LET n == Len(Xs(in)) \div 2
      x1 == ToSet(SubSeq(Xs(in), 1, n))  x2 == ToSet(SubSeq(Xs(in), n + 1, 2 * n))
      target == Coords(GAdd(GAdd(C.out, C.delta, C.a), C.delta, C.a))
  IN \E c1 \in Points(C.a, C.b), c2 \in Points(C.a, C.b) :
       c1[1] \in x1 /\ c2[1] \in x2 /\ \E s \in AddChecked(c1, c2) : target \in ReRand(s, C.tables)
Relation ==
  CASE C.g = "select" -> IF "const" \in DOMAIN C THEN { <<x>> : x \in ToSet(C.const) }
                         ELSE { v \in Vectors(C.k + 1) : \E j \in 2..(C.k + 1) : v[j] = v[1] }
    [] C.g = "isbit"  -> { <<0>>, <<1>> }
    [] C.g = "lookup" -> ToSet(C.table)
    [] C.g = "range"  -> { << v % P >> : v \in 0..(Two(C.n) - 1) }
    [] C.g = "curve"  -> { <<pt[1], pt[2]>> : pt \in Points(C.a, C.b) }
    [] C.g \in {"add", "addh"}   -> { rs \in Vectors(4) : <<rs[3], rs[4]>> \in AddAny(C.l, <<rs[1], rs[2]>>) }
    [] C.g \in {"cadd", "caddh"} -> { rs \in Vectors(4) : <<rs[3], rs[4]>> \in AddChecked(C.l, <<rs[1], rs[2]>>) }
    [] C.g = "rerand" -> ReRand(C.in, C.tables)
    [] C.g = "single" -> IF "const" \in DOMAIN C THEN { in \in {<<>>} : Single(in) } ELSE { in \in Vectors(C.k) : Single(in) }
    [] C.g = "batch"  -> IF "const" \in DOMAIN C THEN { in \in {<<>>} : Batch(in) } ELSE { in \in Vectors(C.k) : Batch(in) }
(* the witness must not run into an exceptional case *)
Plain(h) ==
  CASE C.g \in {"add", "addh", "cadd", "caddh"} -> h.in[1] # C.l[1]
    [] C.g = "rerand" -> Regular(C.in, C.tables, h.d)
    [] C.g = "single" -> Regular(h.w.c[1], C.tables, h.d)
    [] C.g = "batch"  -> h.w.c[1][1] # h.w.c[2][1] /\ Regular(Sum(h.w.c[1], h.w.c[2]), C.tables, h.d)
    [] C.g = "range"  -> h.w < Two(C.n)
    [] OTHER -> h.in \in Relation

Decide == phase = "decided" =>
  LET got == Solutions(R)  want == Relation IN
  IF got = want THEN TRUE
  ELSE PrintT("@@" \o ToJson([k |-> k, what |-> "relation", admitted |-> SetToSeq(got \ want), refused |-> SetToSeq(want \ got)]))
Honest == phase = "decided" =>
  \A i \in 1..Len(R.honest) : LET h == R.honest[i] IN
    IF Plain(h) => (h.a # <<>> /\ h.same /\ Holds(R, h.a) /\ \A j \in 1..R.nin : h.a[j] = h.in[j]) THEN TRUE
    ELSE PrintT("@@" \o ToJson([k |-> k, what |-> "honest", in |-> h.in, w |-> h.w, made |-> h.a # <<>>]))
Counted == phase = "decided" => PrintT("@#" \o ToJson([k |-> k, honest |-> Len(R.honest), plain |-> Cardinality({ i \in 1..Len(R.honest) : Plain(R.honest[i]) })]))
=============================================================================
