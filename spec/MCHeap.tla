------------------------------- MODULE MCHeap -------------------------------
(***************************************************************************)
(* Every state that the actions of M4rie reach on a small heap over GF(2)  *)
(* (modulo x+1): a packed 2 x 2 matrix, windows on its rows and on one of  *)
(* its elements, a bit-sliced 2 x 2 matrix, two permutations.              *)
(*                                                                         *)
(* Checked: the type invariant in every state, that no action changes      *)
(* anything but its target (Frame), that conversions and copies carry the  *)
(* value over (Carry), and that what keeps the row space keeps the rank.   *)
(***************************************************************************)
EXTENDS M4rie
CONSTANT Full           \* with decompositions and permutations (they multiply the states)
VARIABLE act            \* what was done last: <<name, target, further targets>>
hvars == <<heap, flds, act>>

\* handles
Fd == 1
A == 2
W1 == 3
W2 == 4
W3 == 5
S == 6
P == 7
Q == 8
Mats == {A, W1, W2, W3, S}
El == {0, 1}
Val2 == [1..2 -> [1..2 -> El]]

Win(r0, c0, m, n) == [k |-> "E", f |-> Fd, par |-> A, r0 |-> r0, c0 |-> c0, m |-> m, n |-> n, pad |-> 0, d |-> 0, v |-> <<>>]
HInit ==
  /\ flds = (Fd :> 3)
  /\ \E a \in Val2 : \E s \in Val2 :
       heap = (A :> Obj("E", Fd, 2, 2, 0, a)) @@ (S :> Obj("S", Fd, 2, 2, 1, s))
              @@ (W1 :> Win(0, 0, 1, 2)) @@ (W2 :> Win(1, 0, 1, 2)) @@ (W3 :> Win(1, 1, 1, 1))
              @@ (P :> Obj("P", 0, 1, 2, 0, <<<<0, 1>>>>)) @@ (Q :> Obj("P", 0, 1, 2, 0, <<<<0, 1>>>>))
  /\ act = <<"init", A, {}>>

Apart(o, q) == Root(heap, o) # Root(heap, q)
Shape(o, q) == Rows(o) = Rows(q) /\ Cols(o) = Cols(q)
Did(name, dst, more) == act' = <<name, dst, more>>

Values(o) == [1..Rows(o) -> [1..Cols(o) -> El]]
\* an action that relates the old and the new value of one object
Becomes(o, R(_)) == \E X \in Values(o) : heap' = Write(heap, o, X) /\ R(X)

HNext ==
  \/ \E o \in Mats : \E i \in 0..(Rows(o)-1) : \E j \in 0..(Cols(o)-1) : \E x \in El :
       (WriteElem(o, i, j, x) \/ AddElem(o, i, j, x)) /\ Did("elem", o, {})
  \/ \E o \in Mats : \E x \in El : SetUi(o, x) /\ Did("set_ui", o, {})
  \/ \E o \in Mats : \E q \in Mats :
       /\ Kind(o) = Kind(q) /\ Shape(o, q) /\ o # q
       /\ Copy(0, o, q) /\ Did("copy", o, {q})
  \/ ToSlice(0, S, A) /\ Did("convert", S, {A})
  \/ ToPacked(0, A, S) /\ Did("convert", A, {S})
  \/ \E o \in Mats : \E i, j \in 0..(Rows(o)-1) : RowSwap(o, i, j) /\ Did("row_swap", o, {})
  \/ \E o \in Mats : \E i, j \in 0..(Cols(o)-1) : ColSwap(o, i, j) /\ Did("col_swap", o, {})
  \/ \E o \in {A, S} : \E i, j \in 0..1 : i # j /\ \E c \in 0..1 : AddMultipleOfRow(o, i, o, j, 1, c) /\ Did("row_op", o, {})
  \/ \E o \in {W1, W2} : \E q \in {W1, W2} : \E c \in 0..1 : o # q /\ AddMultipleOfRow(o, 0, q, 0, 1, c) /\ Did("row_op", o, {})
  \/ \E o \in {A, S} : \E q \in {A, S} :
       /\ o # q /\ (Add(0, o, q, q) \/ Add(0, o, o, q)) /\ Did("add", o, {q})
  \/ \E o \in {W1, W2} : \E q \in {W1, W2} : o # q /\ Add(0, o, o, q) /\ Did("add", o, {q})
  \/ \E o \in {A, S} : \E q \in {A, S} : o # q /\ (Mul(0, o, q, q) \/ AddMul(o, q, q)) /\ Did("mul", o, {q})
  \/ Mul(0, W3, W3, W3) /\ Did("mul", W3, {})
  \/ \E o \in Mats : \E full \in {0, 1} : \E r \in 0..2 :
       Becomes(o, LAMBDA X : Echelonize(o, full, r)) /\ Did("echelonize", o, {})
  \/ Full /\ \E o \in {A, S} : \E r \in 0..2 : \E X \in Val2 : \E pp, qq \in {<<<<0, 1>>>>, <<<<1, 1>>>>} :
       /\ heap' = Write(Write(Write(heap, o, X), P, pp), Q, qq)
       /\ (Ple(o, P, Q, r) \/ Pluq(o, P, Q, r)) /\ Did("ple", o, {P, Q})
  \/ Full /\ \E o \in {A, S} : \E w \in 1..4 :
       /\ CASE w = 1 -> ApplyPLeft(o, P) [] w = 2 -> ApplyPLeftTrans(o, P)
            [] w = 3 -> ApplyPRight(o, Q) [] OTHER -> ApplyPRightTrans(o, Q)
       /\ Did("permute", o, {})
  \/ \E o \in {A, S} : \E t \in {A, S} :
       /\ o # t /\ (\A i \in 1..2 : V(t)[i][i] # 0)
       /\ Becomes(o, LAMBDA X : TrsmUpper(t, o) \/ TrsmLower(t, o)) /\ Did("trsm", o, {t})
  \/ Invertible(S) /\ Becomes(A, LAMBDA X : Invert(0, A, S)) /\ Did("invert", A, {S})

\* act is there for the properties of steps only: heaps are states
HeapView == heap
HSpec == HInit /\ [][HNext]_hvars

---------------------------------------------------------------------------
Roots == {A, S, P, Q}
\* objects keep their shape; only the target (and the permutations of a
\* decomposition) changes, and only in the rectangle the target names
FrameStep ==
  LET t == act'[2]
      more == IF act'[1] = "ple" THEN act'[3] ELSE {}
      r == Root(heap, t)
  IN  /\ DOMAIN heap' = DOMAIN heap
      /\ \A o \in DOMAIN heap : [heap'[o] EXCEPT !.v = <<>>] = [heap[o] EXCEPT !.v = <<>>]
      /\ \A o \in Roots : o # r /\ o \notin more => heap'[o] = heap[o]
      /\ heap[t].par # 0 =>
           \A i \in 1..2 : \A j \in 1..2 :
             (i <= heap[t].r0 \/ i > heap[t].r0 + heap[t].m \/ j <= heap[t].c0 \/ j > heap[t].c0 + heap[t].n)
               => heap'[r].v[i][j] = heap[r].v[i][j]
Frame == [][FrameStep]_hvars

CarryStep ==
  act'[1] \in {"copy", "convert"} => \A q \in act'[3] : Val(heap', act'[2]) = (IF Apart(act'[2], q) THEN Val(heap', q) ELSE Val(heap, q))
Carry == [][CarryStep]_hvars

Rank(h, o) == RREF(3, Val(h, o), h[o].m, h[o].n)[2]
RankStep ==
  act'[1] \in {"row_swap", "col_swap", "echelonize", "permute", "trsm"} => Rank(heap', act'[2]) = Rank(heap, act'[2])
KeepsRank == [][RankStep]_hvars

HTypeOK == TypeOK /\ flds = (Fd :> 3)
=============================================================================
