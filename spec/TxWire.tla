------------------------------- MODULE TxWire -------------------------------
(***************************************************************************)
(* The encodings of membership paths, proofs, payments and signed          *)
(* payments, what decoders make of altered ones (C14), and which altered   *)
(* payments a verifier may accept (C13).                                   *)
(*                                                                         *)
(* An encoding is a sequence of tokens; a grammar says which tokens an     *)
(* object of a kind consists of.  Values are classes as in ProofWire.      *)
(* After its bytes a signed payment may be signed again by its owners or   *)
(* by somebody else, and be presented under another context.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxMut, Kinds, Signers, Contexts, Splices
(* [k, kind, tokens: seq of [t, v, c: component], other: values of another object of the same shape] *)
Layouts == ndJsonDeserialize(IOEnv.LAYOUTS)
VARIABLES k, toks, muts, signer, ctx
vars == <<k, toks, muts, signer, ctx>>
Orig == Layouts[k].tokens
Kind == Layouts[k].kind

T(x) == [s |-> "T", t |-> x]
V(x) == [s |-> "V", t |-> x]
O(x) == [s |-> "O", t |-> x]
Proof(p, s) == <<T(p), T(p), T(p), O(p), V(p), T(s), T(s), T(s), V(p), V(p), T(s), T(s)>>
Path == <<T("P0"), V("P1"), V("P0")>>
PourG == Proof("P0", "S0") \o Proof("P1", "S1") \o Path \o Path \o <<T("K"), T("K"), T("P0"), T("P0")>>
Grammar == CASE Kind = "path" -> Path
             [] Kind = "even" -> Proof("P0", "S0")
             [] Kind = "odd"  -> Proof("P1", "S1")
             [] Kind = "pour" -> PourG
             [] Kind = "tx"   -> PourG
(* a signed payment is four scalars, the number of bytes and the bytes of a payment *)
Envelope(s) == IF Kind = "tx" THEN SubSeq(s, 1, IF Len(s) < 5 THEN Len(s) ELSE 5) ELSE <<>>
Body(s) == IF Kind = "tx" THEN SubSeq(s, 6, Len(s)) ELSE s

(* out: values read; st: "ok", "err" (the decoder must refuse), "any" (bytes of something else are read) *)
Read(acc, x) ==
  IF acc.st # "run" \/ acc.g = <<>> THEN acc
  ELSE
  LET h == acc.g[1]
      want == IF h.s = "T" THEN h.t ELSE IF h.s = "V" THEN "N" ELSE "F"
      stop(r) == [acc EXCEPT !.st = r]
      go(g, o) == [acc EXCEPT !.g = g \o Tail(@), !.out = @ \o o, !.n = @ + 1]
  IN IF x.t = "X" THEN stop("err")                 \* too few bytes
     ELSE IF x.t # want THEN stop("any")
     ELSE IF x.v = 9999 THEN stop("err")           \* no such point, scalar
     ELSE IF x.v = 7777 THEN stop("any")           \* some bytes
     ELSE IF h.s = "T" THEN go(<<>>, <<x.v>>)
     ELSE IF h.s = "V" THEN IF x.v >= 1000000 THEN stop("err") ELSE go([i \in 1..x.v |-> T(h.t)], <<x.v>>)
     ELSE CASE x.v = 1 -> go(<<T(h.t), T(h.t), T(h.t)>>, <<>>)
            [] x.v = 0 -> go(<<>>, <<0, 0, 0>>)
            [] OTHER -> stop("err")
Parsed(s) ==
  LET b == Body(s)
      a == FoldLeft(Read, [st |-> "run", g |-> Grammar, out |-> <<>>, n |-> 0], b)
  IN [st |-> IF a.st # "run" THEN a.st ELSE IF a.g = <<>> THEN "ok" ELSE "err", out |-> a.out, left |-> Len(b) - a.n]
(* the signed payment itself is decoded without looking at the payment *)
HeadParse(s) ==
  LET hd == Envelope(s)
      bad == { i \in 1..Len(hd) : hd[i].t # (IF i = 5 THEN "B" ELSE "Q") \/ hd[i].v \in {9999, 7777} }
  IN IF Kind # "tx" THEN "ok"
     ELSE IF bad # {} THEN LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN IF hd[i].v = 9999 \/ hd[i].t = "X" THEN "err" ELSE "any"
     ELSE IF Len(hd) < 5 THEN "err"
     ELSE IF hd[5].v > 0 THEN "err" ELSE "ok"
HeadVals(s) == [i \in 1..Len(Envelope(s)) |-> Envelope(s)[i].v]
SamePour == LET a == Parsed(toks) b == Parsed(Orig) IN a.st = "ok" /\ a.out = b.out
Exact == toks = Orig
(* what the decoder does: for signed payments, of the signed payment and of the payment in it *)
DecTx == HeadParse(toks)
Dec == IF Kind = "tx" /\ (DecTx # "ok" \/ Envelope(toks)[5].v # 0) THEN "any" ELSE Parsed(toks).st
(* verdicts: only the very bytes and signatures, or the same payment signed again by both owners *)
Verdict == IF Kind # "tx" THEN "any"
           ELSE IF ctx \notin {"same", "rebuilt"} THEN "reject"
           ELSE IF Exact /\ signer \in {"none", "owners"} THEN "accept"
           ELSE IF SamePour /\ DecTx = "ok" /\ signer = "owners" THEN "any"
           ELSE "reject"

Step(op, i, arg, new) ==
  /\ toks' = new /\ muts' = Append(muts, [op |-> op, i |-> i - 1, arg |-> arg]) /\ UNCHANGED <<k, signer, ctx>>
Set(i, v) == [toks EXCEPT ![i].v = v]
Fixed(v) == v \in {9999, 7777}
Neg(v) == IF Fixed(v) THEN v ELSE -v
Points == {"P0", "P1", "K"}
Scalars == {"S0", "S1", "Q"}
Mutate ==
  /\ Len(muts) < MaxMut /\ ctx = "same"
  /\ \E i \in 1..Len(toks) :
     LET x == toks[i] IN
     \/ x.t \in Points /\ \/ Step("neg", i, 0, Set(i, Neg(x.v)))
                          \/ Step("ident", i, 0, Set(i, 0))
                          \/ Step("gen", i, 0, Set(i, 5000))
                          \/ Step("offcurve", i, 0, Set(i, 9999))
     \/ x.t \in Scalars /\ \/ Step("inc", i, 0, Set(i, IF Fixed(x.v) THEN x.v ELSE 6000 + x.v))
                           \/ Step("negs", i, 0, Set(i, Neg(x.v)))
                           \/ Step("zero", i, 0, Set(i, 0))
                           \/ Step("noncanonical", i, 0, Set(i, 9999))
     \/ x.t = "F" /\ \E v \in {0, 1, 2, 255} : Step("flag", i, v, Set(i, v))
     \/ x.t = "N" /\ \E v \in {0, x.v - 1, x.v + 1, 2 * x.v, 1000000} \ {-1, x.v} : Step("len", i, v, Set(i, v))
     \/ x.t = "B" /\ \E v \in {-100, -1, 1, 1000000} : Step("blen", i, v, Set(i, v))
     \/ \E j \in 1..Len(toks) : j # i /\ toks[j].t = x.t /\ (j = i + 1 \/ (x.c # toks[j].c /\ x.t \in {"K", "Q", "P0"} /\ Splices))
          /\ \/ Step("copy", i, j - 1, Set(i, toks[j].v))
             \/ i < j /\ Step("swap", i, j - 1, [toks EXCEPT ![i] = toks[j], ![j] = x])
     \/ x.t \in Points \cup Scalars /\ \E b \in {0, 9, 77, 200, 252, 255} :
          Step("flip", i, b, Set(i, 7777))
     \/ Step("delete", i, 0, RemoveAt(toks, i))
     \/ Step("dup", i, 0, InsertAt(toks, i, x))
     \/ Step("trunc", i, 0, SubSeq(toks, 1, i - 1))
     \/ Step("cut", i, 0, Append(SubSeq(toks, 1, i - 1), [t |-> "X", v |-> 9999, c |-> "X"]))
     \/ i = Len(toks) /\ Step("tail", i, 0, Append(toks, [t |-> "X", v |-> 9999, c |-> "X"]))
Comps == { toks[i].c : i \in 1..Len(toks) } \ {"X", "len"}
(* a whole component exchanged: for the other payment's, or for another component of this one *)
At(c) == { i \in 1..Len(toks) : toks[i].c = c }
Lo(c) == CHOOSE i \in At(c) : \A j \in At(c) : i <= j
Hi(c) == CHOOSE i \in At(c) : \A j \in At(c) : i >= j
Cut(c) == SubSeq(toks, Lo(c), Hi(c))
Types(s) == [i \in 1..Len(s) |-> s[i].t]
Relabel(s, c) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.c = c]]
Splice ==
  /\ Splices /\ Len(muts) < MaxMut /\ ctx = "same" /\ Len(toks) = Len(Orig)
  /\ \/ \E c \in Comps : Step("other", Lo(c), Hi(c) - Lo(c) + 1, [i \in 1..Len(toks) |-> IF toks[i].c = c /\ toks[i].t \notin {"N", "F"} THEN [toks[i] EXCEPT !.v = 8000 + i] ELSE toks[i]])
     \/ \E c \in Comps, d \in Comps :
          /\ Lo(c) < Lo(d) /\ Types(Cut(c)) = Types(Cut(d))
          /\ muts' = Append(muts, [op |-> "exchange", i |-> Lo(c) - 1, arg |-> Lo(d) - 1])
          /\ toks' = SubSeq(toks, 1, Lo(c) - 1) \o Relabel(Cut(d), c) \o SubSeq(toks, Hi(c) + 1, Lo(d) - 1) \o Relabel(Cut(c), d) \o SubSeq(toks, Hi(d) + 1, Len(toks))
          /\ UNCHANGED <<k, signer, ctx>>
Resign == /\ signer = "none" /\ Kind = "tx" /\ \E s \in Signers : signer' = s
          /\ UNCHANGED <<k, toks, muts, ctx>>
Present == /\ ctx = "same" /\ Kind = "tx" /\ muts = <<>> /\ \E c \in Contexts : ctx' = c
           /\ UNCHANGED <<k, toks, muts, signer>>

Init == /\ k \in { i \in 1..Len(Layouts) : Layouts[i].kind \in Kinds } /\ toks = Layouts[k].tokens
        /\ muts = <<>> /\ signer = "none" /\ ctx = "same"
Next == Mutate \/ Splice \/ Resign \/ Present
Spec == Init /\ [][Next]_vars

OriginalParses == HeadParse(Orig) = "ok" /\ Parsed(Orig).st = "ok" /\ Parsed(Orig).left = 0
(* equal payments have equal encodings, up to the explicit empty second phase and to what follows them *)
Injective == (SamePour /\ DecTx = "ok" /\ \A i \in 1..Len(muts) : muts[i].op \notin {"tail", "dup"})
               => (Body(toks) = Body(Orig) \/ Parsed(toks).left > 0)
Emit == (MaxMut = 1 \/ Len(muts) = MaxMut) =>
        PrintT("@@" \o ToJson([k |-> k - 1, muts |-> muts, signer |-> signer, ctx |-> ctx, dtx |-> DecTx, dec |-> Dec, exp |-> Verdict]))
=============================================================================
