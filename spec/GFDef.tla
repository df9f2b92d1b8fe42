------------------------------- MODULE GFDef -------------------------------
(***************************************************************************)
(* The mathematics m4rie is about, defined from first principles.          *)
(*                                                                         *)
(* An element of GF(2)[x] is a natural number read as its bit vector: bit  *)
(* i is the coefficient of x^i.  An element of GF(2^e) is such a number    *)
(* below 2^e, and the field is fixed by its minimal polynomial p, a number *)
(* with top bit e.  By convention p = 0 stands for the ring GF(2)[x]       *)
(* itself (no reduction); matrices over it model polynomials over GF(2)    *)
(* matrices.                                                               *)
(*                                                                         *)
(* An m x n matrix is a sequence of m rows, each a sequence of n elements. *)
(* Dimensions are passed explicitly because a matrix with no rows does not *)
(* show its number of columns.  Indices in the sequences start at 1, while *)
(* every index that is part of the m4rie interface starts at 0.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Bit(a, i) == (a \div (2^i)) % 2

Upto(n) == [i \in 1..n |-> i]            \* <<1, ..., n>>

\* degree of a non-zero polynomial below 2^31
Deg(a) == CHOOSE i \in 0..30 : a \div (2^i) = 1

XorSeq(s) == FoldLeft(LAMBDA acc, x : acc ^^ x, 0, s)

\* carry-less product (at most 31 bits in the result)
PMul(a, b) ==
  IF b = 0 THEN 0
  ELSE FoldLeft(LAMBDA acc, k : IF Bit(b, k-1) = 1 THEN acc ^^ (a * 2^(k-1)) ELSE acc,
                0, Upto(Deg(b) + 1))

\* remainder modulo p (p # 0)
PMod(a, p) ==
  LET e == Deg(p)
  IN  FoldLeft(LAMBDA acc, k : LET i == 31 - k
                               IN  IF i >= e /\ Bit(acc, i) = 1
                                   THEN acc ^^ (p * 2^(i-e)) ELSE acc,
               a, Upto(31))

FMul(p, a, b) == IF p = 0 THEN PMul(a, b) ELSE PMod(PMul(a, b), p)

FInv(p, a) == CHOOSE b \in 1..(2^Deg(p) - 1) : FMul(p, a, b) = 1

Elems(p) == 0..(2^Deg(p) - 1)

\* p is irreducible over GF(2): no divisor of degree 1..deg/2
Irreducible(p) ==
  /\ p >= 2
  /\ \A q \in 2..(2^((Deg(p) \div 2) + 1) - 1) : Deg(q) <= Deg(p) \div 2 => PMod(p, q) # 0

\* how many irreducible polynomials of degree n there are:  2^n = SUM_{d | n} d IrrCount(d)
RECURSIVE IrrCount(_)
IrrCount(n) ==
  (2^n - FoldLeft(LAMBDA acc, d : acc + d * IrrCount(d), 0,
                  SelectSeq(Upto(n-1), LAMBDA d : n % d = 0))) \div n

---------------------------------------------------------------------------
\* matrices

ZeroMat(m, n) == [i \in 1..m |-> [j \in 1..n |-> 0]]

\* zero matrix with a on the main diagonal
DiagMat(a, m, n) == [i \in 1..m |-> [j \in 1..n |-> IF i = j THEN a ELSE 0]]

MatAdd(A, B, m, n) == [i \in 1..m |-> [j \in 1..n |-> A[i][j] ^^ B[i][j]]]

MatScale(p, a, A, m, n) == [i \in 1..m |-> [j \in 1..n |-> FMul(p, a, A[i][j])]]

MatMul(p, A, B, m, k, n) ==
  [i \in 1..m |-> [j \in 1..n |-> XorSeq([t \in 1..k |-> FMul(p, A[i][t], B[t][j])])]]

\* the m x n block of A whose top left corner is (r0, c0)  (0-based corner)
Block(A, r0, c0, m, n) == [i \in 1..m |-> [j \in 1..n |-> A[r0+i][c0+j]]]

\* A (of size am x an) with its block at (r0, c0) replaced by the m x n matrix B
Paste(A, am, an, r0, c0, B, m, n) ==
  [i \in 1..am |-> [j \in 1..an |->
     IF i > r0 /\ i <= r0 + m /\ j > c0 /\ j <= c0 + n THEN B[i-r0][j-c0] ELSE A[i][j]]]

\* row i (1-based) plus x times row src, from 1-based column c on
RowAxpy(p, A, i, src, x, c) ==
  [A EXCEPT ![i] = [j \in 1..Len(A[i]) |-> IF j >= c THEN A[i][j] ^^ FMul(p, x, src[j]) ELSE A[i][j]]]

\* sequences with two entries exchanged
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]

---------------------------------------------------------------------------
\* Gauss-Jordan: one step of the elimination per column; the state of the
\* elimination is <<matrix, rank so far>>

GaussStep(p, st, c, m, n) ==
  LET A == st[1]
      r == st[2]
      cand == {i \in (r+1)..m : A[i][c] # 0}
  IN  IF cand = {} THEN st
      ELSE LET q    == CHOOSE i \in cand : \A i2 \in cand : i <= i2
               S    == Swap(A, r+1, q)
               inv  == FInv(p, S[r+1][c])
               prow == [j \in 1..n |-> FMul(p, inv, S[r+1][j])]
           IN  << [i \in 1..m |->
                     IF i = r+1 THEN prow
                     ELSE [j \in 1..n |-> S[i][j] ^^ FMul(p, S[i][c], prow[j])]],
                  r + 1 >>

\* <<reduced row echelon form, rank>>
RREF(p, A, m, n) ==
  FoldLeft(LAMBDA st, c : GaussStep(p, st, c, m, n), <<A, 0>>, Upto(n))

\* column (1-based) of the first non-zero entry of a row, n+1 when it is zero
Lead(row, n) ==
  IF \A j \in 1..n : row[j] = 0 THEN n + 1
  ELSE CHOOSE j \in 1..n : row[j] # 0 /\ \A l \in 1..(j-1) : row[l] = 0

\* row echelon form: leading positions strictly increase, zero rows at the bottom
IsREF(A, m, n) ==
  \A i \in 1..(m-1) : Lead(A[i+1], n) > n \/ Lead(A[i], n) < Lead(A[i+1], n)

\* reduced: every leading entry is 1 and is the only non-zero entry of its column
IsRREF(A, m, n) ==
  /\ IsREF(A, m, n)
  /\ \A i \in 1..m : LET c == Lead(A[i], n)
                     IN  c <= n => /\ A[i][c] = 1
                                   /\ \A k \in 1..m : k # i => A[k][c] = 0
=============================================================================
