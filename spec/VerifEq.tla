------------------------------ MODULE VerifEq ------------------------------
(***************************************************************************)
(* The verification equation, written from the protocol.                   *)
(*                                                                         *)
(* Records hold a building program, the challenges its verifier drew, the  *)
(* scalars of the proof, and the coefficient the verifier's equation gives *)
(* to every commitment, proof element and generator, over a field small    *)
(* enough for exact arithmetic here.  The equation is determined up to a   *)
(* common factor; the degrees of the commitments are read off it and must  *)
(* form a sound layout; every coefficient is then recomputed.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Recs == ndJsonDeserialize(IOEnv.RECORDS)
VARIABLES k, conv
vars == <<k, conv>>
(* conv: the two constraints of a multiplication gate may come in either order and with either sign *)
Init == k \in 1..Len(Recs) /\ conv \in {IOEnv.CONV}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

R == Recs[k]
q == R.q
m(a) == a % q
Mul(a, b) == (a * b) % q
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE LET h == Pow(b, n \div 2) s == Mul(h, h) IN IF n % 2 = 1 THEN Mul(s, b) ELSE s
Inv(a) == Pow(a, q - 2)
Prog == R.prog
Ops == 1..(Len(Prog) - 1)

(* ---- the statement ---------------------------------------------------- *)
(* constraints as [t: seq of <<kind, i, j, coefficient>>, c]; gates counted along the way *)
T1(h, c) == <<h.k, h.i, h.j, m(c)>>
Gate2(l, r) ==
  LET s(x) == [t |-> [i \in 1..Len(x.t) |-> <<x.t[i][1], x.t[i][2], x.t[i][3], m(-x.t[i][4])>>], c |-> m(-x.c)]
  IN CASE conv = "lr+" -> <<l, r>> [] conv = "rl+" -> <<r, l>> [] conv = "lr-" -> <<s(l), s(r)>> [] conv = "rl-" -> <<s(r), s(l)>>
First(o) ==
  CASE o.op = "mul" -> Gate2([t |-> <<T1(o.a.a, 1), T1(o.exp.h[1], -1)>>, c |-> m(o.a.c)], [t |-> <<T1(o.a.b, o.a.k), T1(o.exp.h[2], -1)>>, c |-> 0])
    [] o.op = "cons" -> << [t |-> [i \in 1..Len(o.a.t) |-> T1(o.a.t[i][1], o.a.t[i][2])], c |-> m(o.a.c)] >>
    [] OTHER -> <<>>
Second(st, o) ==
  IF o.op # "defer" THEN st ELSE
  LET z == R.zs[st.z + 1]  h == SubSeq(Prog[Len(Prog)].exp.h2, st.h + 1, Len(Prog[Len(Prog)].exp.h2))  kk == m(o.a.k) IN
  CASE o.a.kind = "zcon" -> [st EXCEPT !.z = @ + 1, !.cs = Append(@, [t |-> <<T1(o.a.a, z)>>, c |-> m(-Mul(z, kk))])]
    [] o.a.kind = "zmul" -> [st EXCEPT !.z = @ + 1, !.h = @ + 3,
         !.cs = @ \o Gate2([t |-> <<T1(o.a.a, z), T1(h[1], -1)>>, c |-> 0], [t |-> <<T1(o.a.b, 1), T1(h[2], -1)>>, c |-> 0])
                  \o << [t |-> <<T1(h[3], 1)>>, c |-> m(-Mul(z, kk))] >>]
    [] o.a.kind = "zalloc" -> [st EXCEPT !.h = @ + 1, !.cs = Append(@, [t |-> <<T1(h[1], 1)>>, c |-> m(-kk)])]
    [] o.a.kind = "zgate" -> [st EXCEPT !.h = @ + 3, !.cs = Append(@, [t |-> <<T1(h[1], 1), T1(h[3], 1)>>, c |-> m(-3 * o.a.k)])]
    [] OTHER -> st
Constraints == FlattenSeq([i \in Ops |-> First(Prog[i])])
        \o FoldLeft(Second, [z |-> 0, h |-> 0, cs |-> <<>>], SubSeq(Prog, 1, Len(Prog) - 1)).cs
Dims == FlattenSeq([i \in Ops |-> IF Prog[i].op = "commit_vec" THEN <<Len(Prog[i].a.v)>> ELSE <<>>])
Max2(a, b) == IF a > b THEN a ELSE b
NGates == LET g == { Prog[i].exp.mult : i \in Ops } IN IF g = {} THEN 0 ELSE CHOOSE x \in g : \A y \in g : y <= x
N1 == FoldLeft(LAMBDA acc, d : Max2(acc, d), NGates, Dims)
(* every term with its constraint's power of z *)
Weighted ==
  LET zp == FoldLeft(LAMBDA acc, c : Append(acc, Mul(acc[Len(acc)], R.z)), <<1>>, Constraints)
  IN FlattenSeq([i \in 1..Len(Constraints) |-> [j \in 1..Len(Constraints[i].t) |->
        [h |-> <<Constraints[i].t[j][1], Constraints[i].t[j][2], Constraints[i].t[j][3]>>, w |-> Mul(zp[i + 1], Constraints[i].t[j][4])]]])
ConstW == LET zp == FoldLeft(LAMBDA acc, c : Append(acc, Mul(acc[Len(acc)], R.z)), <<1>>, Constraints)
              S[i \in 0..Len(Constraints)] == IF i = 0 THEN 0 ELSE m(S[i - 1] + Mul(zp[i + 1], Constraints[i].c))
          IN S[Len(Constraints)]

(* ---- the equation of the code ----------------------------------------- *)
El(role, i) == LET s == SelectSeq(R.el, LAMBDA e : e[1] = role /\ e[2] = i) IN IF s = <<>> THEN -1 ELSE s[1][3]
Ts == { R.el[e][2] : e \in { x \in 1..Len(R.el) : R.el[x][1] = "T" } }
TMax == IF Ts = {} THEN 0 ELSE CHOOSE d \in Ts : \A e \in Ts : e <= d
Op == TMax \div 2 - 1

Bad ==
  LET op == Op
      W == Weighted
      wOf(kk, i, j) == FoldLeft(LAMBDA acc, x : IF x.h = <<kk, i, j>> THEN (acc + x.w) % q ELSE acc, 0, W)
      N == R.padded
      xp == FoldLeft(LAMBDA acc, i : Append(acc, Mul(acc[Len(acc)], R.x)), <<1>>, [i \in 1..(TMax + 1) |-> i])
      X(d) == xp[d + 1]
      lam == Mul(El("S1", 0), Inv(X(op + 1)))
      il == Inv(lam)
      C(role, i) == Mul(El(role, i), il)                    \* normalised coefficient
      r == C("T", 0)
      degs(role, i) == { d \in 0..(op + 1) : X(d) = C(role, i) }
      deg(role, i) == CHOOSE d \in degs(role, i) : TRUE
      comms == 0..(Len(Dims) - 1)
      placed == degs("AI1", 0) # {} /\ degs("AO1", 0) # {} /\ \A j \in comms : degs("C", j) # {}
  IN
  IF R.problem # "" THEN {<<R.problem, 0, 0, 0>>}
  ELSE IF Ts # (0..(2 * (op + 1))) \ {op} THEN {<<"degrees of T", op, TMax, Cardinality(Ts)>>}
  ELSE IF lam = 0 \/ r = 0 THEN {<<"no weight", 0, lam, r>>}
  ELSE IF ~placed THEN {<<"a commitment's coefficient is not a power of x", 0, 0, 0>>}
  ELSE
  LET ai == deg("AI1", 0)  ao == deg("AO1", 0)
      cd == [j \in comms |-> deg("C", j)]
      D(j) == IF j = -2 THEN ai ELSE IF j = -1 THEN ao ELSE cd[j]
      idx == -2..(Len(Dims) - 1)
      sound == /\ 2 * ai = op /\ ao = op
               /\ \A a, b \in idx : a # b => D(a) # D(b)
               /\ \A a, b \in idx : D(a) + D(b) = op => a = -2 /\ b = -2
      yi == Inv(R.y)
      yp == FoldLeft(LAMBDA acc, i : Append(acc, Mul(acc[Len(acc)], yi)), <<1>>, [i \in 1..N |-> i])
      Y(i) == yp[i + 1]                                     \* y^-i
      lg == Len(R.cs)
      ci == [t \in 1..lg |-> Inv(R.cs[t])]
      \* round t folds by halves of size 2^(lg-t): the upper half takes the challenge
      bit(i, t) == (i \div (2 ^ (lg - t))) % 2
      s == [i \in 0..(N - 1) |-> LET P[t \in 0..lg] == IF t = 0 THEN 1 ELSE Mul(P[t - 1], IF bit(i, t) = 1 THEN R.cs[t] ELSE ci[t]) IN P[lg]]
      U(i) == IF i < N1 THEN 1 ELSE R.u
      wL == [i \in 0..(N - 1) |-> wOf("L", i, 0)]
      wR == [i \in 0..(N - 1) |-> Mul(wOf("R", i, 0), Y(i))]
      wO == [i \in 0..(N - 1) |-> wOf("O", i, 0)]
      delta == LET S[i \in 0..N] == IF i = 0 THEN 0 ELSE m(S[i - 1] + Mul(wR[i - 1], wL[i - 1])) IN S[N]
      wVC(i) == LET S[j \in 0..Len(Dims)] == IF j = 0 THEN 0 ELSE m(S[j - 1] + Mul(X(op - cd[j - 1]), wOf("V", j - 1, i))) IN S[Len(Dims)]
      ExpOf(role, i) ==
        CASE role = "V" -> Mul(m(-wOf("C", i, 0)), Mul(r, X(op)))
          [] role = "C" -> X(cd[i])
          [] role = "AI1" -> X(ai) [] role = "AO1" -> X(ao) [] role = "S1" -> X(op + 1)
          [] role = "AI2" -> Mul(R.u, X(ai)) [] role = "AO2" -> Mul(R.u, X(ao)) [] role = "S2" -> Mul(R.u, X(op + 1))
          [] role = "T" -> Mul(r, X(i))
          [] role = "L" -> IF i < lg THEN Mul(R.cs[i + 1], R.cs[i + 1]) ELSE 0
          [] role = "R" -> IF i < lg THEN Mul(ci[i + 1], ci[i + 1]) ELSE 0
          [] role = "B" -> m(Mul(R.w, m(R.tx - Mul(R.ia, R.ib))) + Mul(r, m(Mul(X(op), m(delta - ConstW)) - R.tx)))
          [] role = "Bb" -> m(-R.eb - Mul(r, R.txb))
          [] role = "G" -> Mul(U(i), m(Mul(X(ai), wR[i]) - Mul(R.ia, s[i])))
          [] role = "H" -> Mul(U(i), m(Mul(Y(i), m(Mul(X(op - ai), wL[i]) + Mul(X(op - ao), wO[i]) + wVC(i) - Mul(R.ib, Inv(s[i])))) - 1))
  IN IF ~sound THEN {<<"unsound layout", op, ai, ao>>}
     ELSE IF R.unknown # 0 THEN {<<"a point outside statement and proof", 0, R.unknown, 0>>}
     ELSE { <<R.el[e][1], R.el[e][2], C(R.el[e][1], R.el[e][2]), ExpOf(R.el[e][1], R.el[e][2])>> :
              e \in { x \in 1..Len(R.el) : C(R.el[x][1], R.el[x][2]) # ExpOf(R.el[x][1], R.el[x][2]) } }
Emit == PrintT("@@" \o ToJson([k |-> R.k, conv |-> conv, bad |-> SetToSeq(Bad)]))
=============================================================================
