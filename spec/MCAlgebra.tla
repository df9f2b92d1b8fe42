------------------------------ MODULE MCAlgebra -----------------------------
(***************************************************************************)
(* What the relations of M4rie say, for all matrices of small shapes:      *)
(* products form a ring that acts on rows and columns, the reduced row     *)
(* echelon form is one for each row space, decompositions exist (those of  *)
(* M4rieGen are ones), triangular systems have exactly one solution and    *)
(* inverses work on both sides.  A relation that no result, or a wrong     *)
(* one, could satisfy would make the verdicts on traces worthless.         *)
(*                                                                         *)
(* p = 3 is GF(2) (modulo x+1), p = 7 is GF(4).                            *)
(***************************************************************************)
EXTENDS M4rieGen
CONSTANT Shapes        \* <<p, m, n>>: A and B range over the m x n matrices over GF(2)[x]/p
QuickShapes == {<<3, 1, 3>>, <<3, 3, 1>>, <<3, 2, 2>>, <<3, 2, 3>>, <<3, 3, 2>>, <<7, 1, 2>>, <<7, 2, 1>>}
FullShapes == QuickShapes \cup {<<7, 2, 2>>, <<3, 3, 3>>}
VARIABLES s, A, B
avars == <<heap, flds, log, cnt, opq, nzd, s, A, B>>

p == s[1]
m == s[2]
n == s[3]

Mx(sh) == [1..sh[2] -> [1..sh[3] -> Elems(sh[1])]]
\* matrices as sequences of sequences
AInit == /\ GInit
         /\ s \in Shapes /\ A \in Mx(s) /\ B \in Mx(s)
ASpec == AInit /\ [][UNCHANGED avars]_avars

T(X, r, c) == [i \in 1..c |-> [j \in 1..r |-> X[j][i]]]
Sq == m = n
Eye(k) == DiagMat(1, k, k)
One0 == B = ZeroMat(m, n)           \* states that stand for A alone

---------------------------------------------------------------------------
\* products
RingLaws ==
  Sq => LET AB == MatMul(p, A, B, n, n, n)
        IN  /\ MatMul(p, AB, A, n, n, n) = MatMul(p, A, MatMul(p, B, A, n, n, n), n, n, n)
            /\ MatMul(p, A, MatAdd(A, B, n, n), n, n, n) = MatAdd(MatMul(p, A, A, n, n, n), AB, n, n)
            /\ MatMul(p, Eye(n), A, n, n, n) = A /\ MatMul(p, A, Eye(n), n, n, n) = A
            /\ T(AB, n, n) = MatMul(p, T(B, n, n), T(A, n, n), n, n, n)
RectLaws ==
  LET P == MatMul(p, A, T(B, m, n), m, n, m)
  IN  /\ P = T(MatMul(p, B, T(A, m, n), m, n, m), m, m)
      /\ \A x \in Elems(p) : MatScale(p, x, P, m, m) = MatMul(p, MatScale(p, x, A, m, n), T(B, m, n), m, n, m)

---------------------------------------------------------------------------
\* row spaces
XorSeq(q) == FoldLeft(LAMBDA acc, y : acc ^^ y, 0, q)
Span(X) == {[j \in 1..n |-> XorSeq([i \in 1..m |-> FMul(p, x[i], X[i][j])])] : x \in [1..m -> Elems(p)]}
EchelonLaws ==
  LET R == RREF(p, A, m, n)
  IN  /\ One0 => /\ IsRREF(R[1], m, n) /\ IsREF(R[1], m, n)
                 /\ RREF(p, R[1], m, n) = R
                 /\ Span(R[1]) = Span(A)
                 /\ Cardinality(Span(A)) = (2^Deg(p))^R[2]
                 /\ R[2] = RREF(p, T(A, m, n), n, m)[2]
      /\ (Span(A) = Span(B)) <=> (R = RREF(p, B, m, n))
      \* the only reduced form with that row space
      /\ IsRREF(B, m, n) /\ Span(A) = Span(B) => B = R[1]

---------------------------------------------------------------------------
\* decompositions
PleLaws ==
  One0 => LET d == PleOf(p, A, m, n)
              u == PluqOf(p, A, m, n)
          IN  /\ IsPLE(p, A, m, n, d.A, d.P, d.Q, d.r)
              /\ IsPLUQ(p, A, m, n, u.A, u.P, u.Q, u.r)
              /\ d.r = RREF(p, A, m, n)[2] /\ u.r = d.r
\* and none of another rank, or with a wrong matrix
PleTight ==
  LET d == PleOf(p, A, m, n)
      Pid == [i \in 1..m |-> i-1]
      Qid == [i \in 1..n |-> i-1]
  IN  \A r \in 0..Least(m, n) :
        IsPLE(p, A, m, n, B, Pid, Qid, r) => r = d.r /\ MatMul(p, PleL(B, m, r), PleE(B, n, r, Qid), m, r, n) = A

\* permutations undo each other, and agree with multiplication by a permutation matrix
Perms1(k) == {P \in [1..k -> 0..(k-1)] : \A i \in 1..k : P[i] >= i-1}
PermLaws ==
  One0 => /\ \A P \in Perms1(m) : /\ RowsBwd(RowsFwd(A, P), P) = A /\ RowsFwd(RowsBwd(A, P), P) = A
                                  /\ RowsFwd(A, P) = MatMul(p, RowsFwd(Eye(m), P), A, m, m, n)
                                  /\ RowsBwd(A, P) = MatMul(p, T(RowsFwd(Eye(m), P), m, m), A, m, m, n)
          /\ \A P \in Perms1(n) : /\ ColsBwd(ColsFwd(A, n, P), n, P) = A
                                  /\ ColsFwd(A, n, P) = T(RowsFwd(T(A, m, n), P), n, m)
                                  /\ ColsBwd(A, n, P) = MatMul(p, A, RowsFwd(Eye(n), P), m, n, n)

---------------------------------------------------------------------------
\* systems and inverses
TrsmLaws ==
  Sq => \A X \in {UpperOf(A, n), LowerOf(A, n)} :
          (\A i \in 1..n : X[i][i] # 0) =>
             /\ MatMul(p, X, Solve(p, X, B, n, n), n, n, n) = B
             \* no other solution: the system with right-hand side 0 has none but 0
             /\ (MatMul(p, X, B, n, n, n) = ZeroMat(n, n) => B = ZeroMat(n, n))
InverseLaws ==
  Sq => /\ (MatMul(p, A, B, n, n, n) = Eye(n)) = (MatMul(p, B, A, n, n, n) = Eye(n))
        /\ (MatMul(p, A, B, n, n, n) = Eye(n)) => RREF(p, A, n, n)[2] = n /\ B = Solve(p, A, Eye(n), n, n)
        /\ One0 /\ RREF(p, A, n, n)[2] = n => MatMul(p, A, Solve(p, A, Eye(n), n, n), n, n, n) = Eye(n)

---------------------------------------------------------------------------
\* windows: writing a rectangle writes that rectangle and nothing else
WindowLaws ==
  \A r0 \in 0..(m-1) : \A r1 \in (r0+1)..m : \A c0 \in 0..(n-1) : \A c1 \in (c0+1)..n :
    LET X == Block(B, r0, c0, r1-r0, c1-c0)
        W == Paste(A, m, n, r0, c0, X, r1-r0, c1-c0)
    IN  /\ Block(W, r0, c0, r1-r0, c1-c0) = X
        /\ \A i \in 1..m : \A j \in 1..n :
             W[i][j] = IF i > r0 /\ i <= r1 /\ j > c0 /\ j <= c1 THEN B[i][j] ELSE A[i][j]
=============================================================================
