------------------------------- MODULE MCDesign ------------------------------
(***************************************************************************)
(* How m4rie computes what M4rie.tla says it computes.  The algorithms the *)
(* library is built from, as they are designed: block recursion that cuts  *)
(* at word boundaries, elimination with tables for several rows at once,   *)
(* Strassen-like products with what does not divide evenly left over.  The *)
(* number of entries in a word, 64 / w there, is the parameter W here, so  *)
(* that small matrices go through every branch.  TLC compares each, for    *)
(* all matrices of the shapes given, with the relation the interface       *)
(* promises.                                                               *)
(*                                                                         *)
(* The traces decide whether the C code satisfies the relations; this says *)
(* that the algorithms do, for every matrix and not only those recorded.   *)
(***************************************************************************)
EXTENDS M4rieGen
CONSTANT Jobs      \* <<law, p, m, n, W>>
VARIABLES job, A
dvars == <<heap, flds, log, cnt, opq, nzd, job, A>>

law == job[1]
p == job[2]
m == job[3]
n == job[4]
W == job[5]

\* a product is determined by pairs of units, see Products
ByUnits == {"mul", "addmul"}
DInit == /\ GInit
         /\ job \in Jobs
         /\ A \in IF job[1] \in ByUnits THEN {<<>>} ELSE [1..job[3] -> [1..job[4] -> Elems(job[2])]]
DSpec == DInit /\ [][UNCHANGED dvars]_dvars

Half(k, w) == LET h == k \div 2 IN h - (h % w)       \* as much of half as fills words
Most(x, y) == IF x > y THEN x ELSE y
Ident(k) == [i \in 1..k |-> i-1]

---------------------------------------------------------------------------
(* PLE: one column at a time, then L compressed to the left                *)

\* columns i and j of the rows from row lo on exchanged (all 1-based)
SwapBelow(B, i, j, lo, hi) == [r \in 1..Len(B) |-> IF r >= lo /\ r <= hi THEN Swap(B[r], i, j) ELSE B[r]]

PleCol(st, c, mm, nn) ==
  LET r    == st.r
      cand == {i \in (r+1)..mm : st.A[i][c] # 0}
  IN  IF cand = {} THEN st
      ELSE LET i0  == Min(cand)
               S   == Swap(st.A, r+1, i0)
               inv == FInv(p, S[r+1][c])
               E   == [j \in 1..nn |-> IF j > c THEN FMul(p, inv, S[r+1][j]) ELSE S[r+1][j]]
           IN  [A |-> [i \in 1..mm |-> IF i = r+1 THEN E
                                       ELSE IF i < r+1 THEN S[i]
                                       ELSE [j \in 1..nn |-> IF j > c THEN S[i][j] ^^ FMul(p, S[i][c], E[j]) ELSE S[i][j]]],
                P |-> [st.P EXCEPT ![r+1] = i0-1], Q |-> [st.Q EXCEPT ![r+1] = c-1], r |-> r+1]

PleBase(B, mm, nn) ==
  LET d == FoldLeft(LAMBDA st, c : PleCol(st, c, mm, nn), [A |-> B, P |-> Ident(mm), Q |-> Ident(nn), r |-> 0], Upto(nn))
      C == FoldLeft(LAMBDA X, i : SwapBelow(X, i, d.Q[i]+1, i, mm), d.A, Upto(d.r))
  IN  [d EXCEPT !.A = C]

---------------------------------------------------------------------------
(* Triangular systems: L11 X1 = B1 - L10 X0 and so on                      *)

SolveLower(T, B, k, c) == Solve(p, LowerOf(T, k), B, k, c)
SolveUpper(T, B, k, c) == Solve(p, UpperOf(T, k), B, k, c)

RECURSIVE RecLower(_, _, _, _)
RecLower(T, B, k, c) ==
  IF k <= W \/ c <= W THEN SolveLower(T, B, k, c)
  ELSE LET h  == Most(Half(k, W), W)
           X0 == RecLower(Block(T, 0, 0, h, h), Block(B, 0, 0, h, c), h, c)
           B1 == MatAdd(Block(B, h, 0, k-h, c), MatMul(p, Block(T, h, 0, k-h, h), X0, k-h, h, c), k-h, c)
       IN  X0 \o RecLower(Block(T, h, h, k-h, k-h), B1, k-h, c)

RECURSIVE RecUpper(_, _, _, _)
RecUpper(T, B, k, c) ==
  IF k <= W \/ c <= W THEN SolveUpper(T, B, k, c)
  ELSE LET h  == Most(Half(k, W), W)
           X1 == RecUpper(Block(T, h, h, k-h, k-h), Block(B, h, 0, k-h, c), k-h, c)
           B0 == MatAdd(Block(B, 0, 0, h, c), MatMul(p, Block(T, 0, h, h, k-h), X1, h, k-h, c), h, c)
       IN  RecUpper(Block(T, 0, 0, h, h), B0, h, c) \o X1

---------------------------------------------------------------------------
(* PLE by blocks of columns: decompose the left half, bring the right half *)
(* up to date, decompose what is left of it and put the two together.      *)

\* the r2 columns from n1 on of the rows from r1 on moved next to the r1 columns on the left
CompressL(B, mm, r1, n1, r2) ==
  IF r1 = n1 THEN B
  ELSE LET C == FoldLeft(LAMBDA X, i : SwapBelow(X, r1+i, n1+i, r1+i, r1+r2), B, Upto(r2))
       IN  [i \in 1..mm |-> IF i <= r1 + r2 THEN C[i]
                            ELSE [j \in 1..Len(C[i]) |-> IF j > r1 /\ j <= r1 + r2 THEN C[i][n1 + j - r1]
                                                         ELSE IF j > r1 + r2 /\ j <= n1 + r2 THEN 0 ELSE C[i][j]]]

RECURSIVE PleRec(_, _, _)
PleRec(B, mm, nn) ==
  IF nn <= W THEN PleBase(B, mm, nn)
  ELSE
  LET n1  == (((nn - 1) \div W + 1) \div 2) * W
      d1  == PleRec(Block(B, 0, 0, mm, n1), mm, n1)
      r1  == d1.r
      R   == IF r1 = 0 THEN Block(B, 0, n1, mm, nn-n1) ELSE RowsFwd(Block(B, 0, n1, mm, nn-n1), d1.P)
      A01 == IF r1 = 0 THEN <<>> ELSE RecLower(Block(d1.A, 0, 0, r1, r1), Block(R, 0, 0, r1, nn-n1), r1, nn-n1)
      A10 == Block(d1.A, r1, 0, mm-r1, n1)
      A11 == IF r1 = 0 THEN R
             ELSE MatAdd(Block(R, r1, 0, mm-r1, nn-n1), MatMul(p, A10, A01, mm-r1, r1, nn-n1), mm-r1, nn-n1)
      d2  == PleRec(A11, mm-r1, nn-n1)
      r2  == d2.r
      \* rows of L on the left follow their rows; to the right of L they are zero
      low == RowsFwd(A10, d2.P)
      all == [i \in 1..mm |-> IF i <= r1 THEN d1.A[i] \o A01[i] ELSE low[i-r1] \o d2.A[i-r1]]
      Q0  == [i \in 1..nn |-> IF i <= n1 THEN d1.Q[i] ELSE d2.Q[i-n1] + n1]
  IN  [A |-> CompressL(all, mm, r1, n1, r2),
       P |-> [i \in 1..mm |-> IF i <= r1 THEN d1.P[i] ELSE d2.P[i-r1] + r1],
       Q |-> FoldLeft(LAMBDA q, i : [q EXCEPT ![r1+i] = q[n1+i]], Q0, Upto(r2)),
       r |-> r1 + r2]

PluqRec(B, mm, nn) ==
  LET d == PleRec(B, mm, nn)
      k == IF d.r # 0 /\ d.r < mm THEN d.r ELSE mm       \* the rows the columns of which are exchanged
  IN  [d EXCEPT !.A = TriFwd(SubSeq(d.A, 1, k), k, d.Q, nn) \o SubSeq(d.A, k+1, mm)]

PleLaw  == LET d == PleRec(A, m, n) IN IsPLE(p, A, m, n, d.A, d.P, d.Q, d.r)
PluqLaw == LET d == PluqRec(A, m, n) IN IsPLUQ(p, A, m, n, d.A, d.P, d.Q, d.r)

---------------------------------------------------------------------------
(* Echelon forms from decompositions.  The columns that share a word with  *)
(* the last ones of U are solved for in a copy, because a system cannot    *)
(* be solved in a window that starts inside a word.                        *)

EchPluq(B) ==
  LET d  == PluqRec(B, m, n)
      r  == d.r
      rr == W * (r \div W)
      U  == [i \in 1..r |-> [j \in 1..r |-> IF i = j THEN 1 ELSE d.A[i][j]]]
      UA == [i \in 1..m |-> [j \in 1..n |-> IF i = j /\ i <= r THEN 1 ELSE d.A[i][j]]]
      From(X, a, b) == Paste(X, m, n, 0, a, RecUpper(U, Block(X, 0, a, r, b-a), r, b-a), r, b-a)
      \* the blocks are taken from the matrix before the diagonal is set, where they are copies
      S  == IF r = n \/ r = 0 THEN d.A
            ELSE IF rr = r THEN From(UA, r, n)
            ELSE IF n > rr + W
              THEN LET X0 == Paste(UA, m, n, 0, rr, RecUpper(U, Block(d.A, 0, rr, r, W), r, W), r, W)
                   IN  From(X0, rr + W, n)
            ELSE Paste(UA, m, n, 0, rr, RecUpper(U, Block(d.A, 0, rr, r, n-rr), r, n-rr), r, n-rr)
      I  == [i \in 1..m |-> [j \in 1..n |-> IF i > r THEN 0 ELSE IF j <= r THEN IF i = j THEN 1 ELSE 0 ELSE S[i][j]]]
  IN  <<IF r = 0 THEN I ELSE ColsBwd(SubSeq(I, 1, r), n, d.Q) \o SubSeq(I, r+1, m), r>>

EchPle(B) ==
  LET d == PleRec(B, m, n)
  IN  <<[i \in 1..m |-> [j \in 1..n |-> IF i > d.r THEN 0 ELSE IF j = d.Q[i]+1 THEN 1
                                        ELSE IF j <= i THEN 0 ELSE d.A[i][j]]], d.r>>

FullLaw  == EchPluq(A) = RREF(p, A, m, n)
HalfLaw  == LET E == EchPle(A) IN /\ IsREF(E[1], m, n) /\ RREF(p, E[1], m, n) = RREF(p, A, m, n)
                                  /\ E[2] = RREF(p, A, m, n)[2]

---------------------------------------------------------------------------
(* Elimination with tables: up to W pivots are found by plain elimination  *)
(* within W columns, then all other rows are cleared by one table lookup   *)
(* for each pivot.  When a column has no pivot, those found before it are  *)
(* used alone, and no row below has an entry in their columns any more.    *)

\* st: [A, s (pivots found so far), ok]; column j (1-based) of those from c on, rows from r on
\* rows are looked at one after the other; those before the pivot are already cleared on the way
GaussCol(st, j, r, c) ==
  IF ~st.ok THEN st
  ELSE
  LET Clear(B, i) == FoldLeft(LAMBDA X, l : RowAxpy(p, X, i, X[r+l], X[i][c+l], c+l), B, Upto(st.s))
      \* <<matrix, pivot row or 0>>
      look == FoldLeft(LAMBDA z, i : IF z[2] # 0 \/ i <= r + st.s THEN z
                                     ELSE LET C == Clear(z[1], i) IN <<C, IF C[i][j] # 0 THEN i ELSE 0>>,
                       <<st.A, 0>>, Upto(m))
      B    == look[1]
      i0   == look[2]
      top  == r + st.s + 1
  IN  IF i0 = 0 THEN [st EXCEPT !.A = B, !.ok = FALSE]
      ELSE LET S1 == Swap([B EXCEPT ![i0] = [l \in 1..n |-> IF l >= j THEN FMul(p, FInv(p, B[i0][j]), B[i0][l]) ELSE B[i0][l]]],
                          i0, top)
               S2 == FoldLeft(LAMBDA X, l : RowAxpy(p, X, r+l, X[top], X[r+l][j], j), S1, Upto(st.s))
           IN  [A |-> S2, s |-> st.s + 1, ok |-> TRUE]

\* rows lo < i <= hi cleared in the columns from c on by the rows after r
Process(B, lo, hi, r, c, k) ==
  [i \in 1..m |-> IF i > lo /\ i <= hi
                  THEN [j \in 1..n |-> FoldLeft(LAMBDA x, l : IF j >= c + l THEN x ^^ FMul(p, B[i][c+l], B[r+l][j]) ELSE x,
                                                B[i][j], Upto(k))]
                  ELSE B[i]]

RECURSIVE Tables(_, _, _, _)
Tables(B, r, c, full) ==
  IF c >= n THEN <<B, r>>
  ELSE LET kk == Least(W, n - c)
           g  == FoldLeft(LAMBDA st, j : GaussCol(st, c + j, r, c), [A |-> B, s |-> 0, ok |-> TRUE], Upto(kk))
           B1 == IF g.s = kk THEN Process(g.A, r + g.s, m, r, c, g.s) ELSE g.A
           B2 == IF full THEN Process(B1, 0, r, r, c, g.s) ELSE B1
       IN  Tables(B2, r + g.s, IF g.s = 0 THEN c + 1 ELSE c + g.s, full)

TablesFull == Tables(A, 0, 0, TRUE) = RREF(p, A, m, n)
TablesHalf == LET E == Tables(A, 0, 0, FALSE) IN /\ IsREF(E[1], m, n) /\ RREF(p, E[1], m, n) = RREF(p, A, m, n)
                                                 /\ E[2] = RREF(p, A, m, n)[2]

---------------------------------------------------------------------------
(* Triangular systems and inverses: A is the system beside its right-hand  *)
(* side.                                                                   *)

TrsmLaw ==
  LET T == [i \in 1..m |-> [j \in 1..m |-> IF i = j /\ A[i][j] = 0 THEN 1 ELSE A[i][j]]]
      B == Block(A, 0, m, m, n-m)
  IN  /\ MatMul(p, LowerOf(T, m), RecLower(T, B, m, n-m), m, m, n-m) = B
      /\ MatMul(p, UpperOf(T, m), RecUpper(T, B, m, n-m), m, m, n-m) = B

\* the inverse is what elimination leaves beside the identity
InverseLaw ==
  LET full == [i \in 1..m |-> A[i] \o [j \in 1..m |-> IF i = j THEN 1 ELSE 0]]
      R    == RREF(p, full, m, 2*m)[1]
      L    == Block(R, 0, 0, m, m)
      X    == Block(R, 0, m, m, m)
  IN  (L = DiagMat(1, m, m)) = (RREF(p, A, m, m)[2] = m)
      /\ (L = DiagMat(1, m, m) => MatMul(p, A, X, m, m, m) = DiagMat(1, m, m))

---------------------------------------------------------------------------
(* Products.  Both schedules are sums of products of sums, so they are     *)
(* right for all matrices when they are right for all pairs of matrices    *)
(* with a single entry (and for C, which is only added to).  job[3..4] are *)
(* the numbers of rows and columns of the result, job[6] of what is        *)
(* between.                                                                *)

XorSeq(q) == FoldLeft(LAMBDA acc, y : acc ^^ y, 0, q)
Sub(X, i, j, a, b) == Block(X, i*a, j*b, a, b)
Quad(C11, C12, C21, C22) == [i \in 1..Len(C11) |-> C11[i] \o C12[i]] \o [i \in 1..Len(C21) |-> C21[i] \o C22[i]]

\* what the bulk of C leaves over is added by plain products
Rest(C, X, Y, mm, kk, nn, a, b, c, keep) ==
  LET old(i, j) == IF keep THEN C[i][j] ELSE 0
      dot(i, j, from, to) == XorSeq([t \in 1..(to-from) |-> FMul(p, X[i][from+t], Y[from+t][j])])
  IN  [i \in 1..mm |-> [j \in 1..nn |->
         IF i <= 2*a /\ j <= 2*c THEN C[i][j] ^^ dot(i, j, 2*b, kk)
         ELSE old(i, j) ^^ dot(i, j, 0, kk)]]

RECURSIVE Strassen(_, _, _, _, _)
Strassen(X, Y, mm, kk, nn) ==
  LET a == Half(mm, W)
      b == Half(kk, W)
      c == Half(nn, W)
  IN
  IF a = 0 \/ b = 0 \/ c = 0 THEN MatMul(p, X, Y, mm, kk, nn)
  ELSE
  LET S(i, j) == Sub(X, i-1, j-1, a, b)
      T(i, j) == Sub(Y, i-1, j-1, b, c)
      PS(u, v) == MatAdd(u, v, a, b)
      PT(u, v) == MatAdd(u, v, b, c)
      PC(u, v) == MatAdd(u, v, a, c)
      M(u, v) == Strassen(u, v, a, b, c)
      kn1 == PT(T(2,2), T(1,2))
      mk1 == PS(S(2,2), S(1,2))
      C21a == M(mk1, kn1)
      mk2 == PS(S(2,2), S(2,1))
      kn2 == PT(T(2,2), T(2,1))
      C22a == M(mk2, kn2)
      kn3 == PT(kn2, T(1,2))
      mk3 == PS(mk2, S(1,2))
      C11a == M(mk3, kn3)
      mk4 == PS(mk3, S(1,1))
      C12a == PC(M(mk4, T(1,2)), C22a)
      mk5 == M(S(1,2), T(2,1))
      C11b == PC(C11a, mk5)
      C12b == PC(C11b, C12a)
      C11c == PC(C21a, C11b)
      kn4 == PT(kn3, T(1,1))
      C21b == PC(C11c, M(S(2,1), kn4))
      C22b == PC(C22a, C11c)
      C11d == PC(M(S(1,1), T(1,1)), mk5)
      bulk == Paste(ZeroMat(mm, nn), mm, nn, 0, 0, Quad(C11d, C12b, C21b, C22b), 2*a, 2*c)
  IN  Rest(bulk, X, Y, mm, kk, nn, a, b, c, FALSE)

RECURSIVE StrassenAdd(_, _, _, _, _, _)
StrassenAdd(C, X, Y, mm, kk, nn) ==
  LET a == Half(mm, W)
      b == Half(kk, W)
      c == Half(nn, W)
  IN
  IF a = 0 \/ b = 0 \/ c = 0 THEN MatAdd(C, MatMul(p, X, Y, mm, kk, nn), mm, nn)
  ELSE
  LET S(i, j) == Sub(X, i-1, j-1, a, b)
      T(i, j) == Sub(Y, i-1, j-1, b, c)
      D(i, j) == Sub(C, i-1, j-1, a, c)
      PS(u, v) == MatAdd(u, v, a, b)
      PT(u, v) == MatAdd(u, v, b, c)
      PC(u, v) == MatAdd(u, v, a, c)
      M(u, v) == Strassen(u, v, a, b, c)
      MA(w, u, v) == StrassenAdd(w, u, v, a, b, c)
      s1 == PS(S(2,2), S(2,1))
      t1 == PT(T(2,2), T(2,1))
      u1 == M(s1, t1)
      C22a == PC(u1, D(2,2))
      C12a == PC(u1, D(1,2))
      u2 == M(S(1,2), T(2,1))
      C11a == MA(PC(u2, D(1,1)), S(1,1), T(1,1))
      s2 == PS(s1, S(1,2))
      t2 == PT(t1, T(1,2))
      u3 == MA(u2, s2, t2)
      C12b == PC(C12a, u3)
      s3 == PS(S(1,1), s2)
      C12c == MA(C12b, s3, T(1,2))
      t3 == PT(T(1,1), t2)
      C21a == MA(D(2,1), S(2,1), t3)
      s4 == PS(S(2,2), S(1,2))
      t4 == PT(T(2,2), T(1,2))
      u4 == MA(u3, s4, t4)
      C21b == PC(C21a, u4)
      C22b == PC(C22a, u4)
      bulk == Paste(C, mm, nn, 0, 0, Quad(C11a, C12c, C21b, C22b), 2*a, 2*c)
  IN  Rest(bulk, X, Y, mm, kk, nn, a, b, c, TRUE)

Unit(i, j, x, mm, nn) == [r \in 1..mm |-> [c \in 1..nn |-> IF r = i /\ c = j THEN x ELSE 0]]
Products(law1) ==
  LET k == job[6]
      Q == [i \in 1..m |-> [j \in 1..n |-> (i + 3*j) % (2^Deg(p))]]      \* something to add to
  IN  \A i \in 1..m : \A t1 \in 1..k : \A t2 \in 1..k : \A j \in 1..n :
        LET X == Unit(i, t1, 1, m, k)
            Y == Unit(t2, j, 1, k, n)
            Z == MatMul(p, X, Y, m, k, n)
        IN  IF law1 = "mul" THEN Strassen(X, Y, m, k, n) = Z
            ELSE StrassenAdd(Q, X, Y, m, k, n) = MatAdd(Q, Z, m, n)

---------------------------------------------------------------------------
Laws == CASE law = "ple" -> PleLaw
          [] law = "pluq" -> PluqLaw
          [] law = "full" -> FullLaw
          [] law = "half" -> HalfLaw
          [] law = "tables" -> TablesFull
          [] law = "tables0" -> TablesHalf
          [] law = "trsm" -> TrsmLaw
          [] law = "inverse" -> InverseLaw
          [] law \in ByUnits -> Products(law)

\* shapes so that every branch is taken: ranks below, at and above multiples of W, two and
\* three levels of blocks, more rows than columns and fewer
Elim(l) == {<<l, 3, 2, 5, 1>>, <<l, 3, 3, 4, 1>>, <<l, 3, 4, 3, 2>>, <<l, 3, 2, 5, 2>>, <<l, 3, 2, 5, 3>>, <<l, 3, 3, 4, 2>>, <<l, 7, 2, 3, 1>>, <<l, 7, 3, 2, 1>>}
ElimBig(l) == {<<l, 3, 4, 4, 1>>, <<l, 3, 3, 5, 2>>, <<l, 3, 2, 7, 2>>, <<l, 3, 2, 7, 3>>, <<l, 7, 2, 4, 1>>, <<l, 7, 2, 4, 2>>}
Mult(l) == {<<l, 3, 2, 2, 1, 2>>, <<l, 3, 3, 3, 1, 3>>, <<l, 3, 4, 5, 2, 4>>, <<l, 3, 5, 4, 2, 5>>, <<l, 3, 4, 4, 1, 4>>, <<l, 7, 3, 2, 1, 3>>}
MultBig(l) == {<<l, 3, 5, 5, 1, 5>>, <<l, 3, 6, 5, 1, 7>>, <<l, 3, 9, 5, 2, 4>>, <<l, 7, 4, 5, 1, 6>>, <<l, 3, 4, 4, 1, 9>>}

QuickEch  == Elim("full") \cup Elim("half") \cup Elim("tables") \cup Elim("tables0")
FullEch   == QuickEch \cup ElimBig("full") \cup ElimBig("half") \cup ElimBig("tables") \cup ElimBig("tables0")
QuickPle  == Elim("ple") \cup Elim("pluq")
FullPle   == QuickPle \cup ElimBig("ple") \cup ElimBig("pluq")
QuickMul  == Mult("mul")
FullMul   == Mult("mul") \cup MultBig("mul")
QuickAdd  == Mult("addmul")
FullAdd   == Mult("addmul") \cup MultBig("addmul")
QuickTrsm == {<<"trsm", 3, 2, 4, 1>>, <<"trsm", 3, 3, 5, 1>>, <<"trsm", 7, 2, 4, 1>>}
FullTrsm  == QuickTrsm \cup {<<"trsm", 3, 3, 6, 1>>, <<"trsm", 3, 3, 6, 2>>}
QuickInv  == {<<"inverse", 3, 3, 3, 1>>, <<"inverse", 7, 2, 2, 1>>, <<"inverse", 11, 2, 2, 1>>}
FullInv   == QuickInv \cup {<<"inverse", 3, 4, 4, 1>>, <<"inverse", 7, 3, 3, 1>>}
=============================================================================
