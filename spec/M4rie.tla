------------------------------- MODULE M4rie -------------------------------
(***************************************************************************)
(* The m4rie library as a state machine.                                   *)
(*                                                                         *)
(* The state is the set of live objects an application has created through *)
(* the interface; every public function is one action.  m4rie is           *)
(* sequential, so a call takes effect atomically at its return.            *)
(*                                                                         *)
(*   flds : field handle -> minimal polynomial                             *)
(*   heap : object handle -> object                                        *)
(*                                                                         *)
(* Kinds of object:                                                        *)
(*   "E"  packed matrix     "S"  bit-sliced matrix                         *)
(*   "Y"  polynomial with GF(2) matrices as coefficients                   *)
(*   "L"  the same with more than 31 of them, more than a number has bits: *)
(*        coefficients 15k to 15k+14 are the k-th of several m x n          *)
(*        matrices, one below the other                                    *)
(*   "J"  Newton-John table: row x has the x-fold of a row, for every x      *)
(*   "P"  permutation in LAPACK form (a 1 x n matrix of row/column indices)*)
(*   "B"  bilinear map                                                     *)
(*                                                                         *)
(* The representation (packed, bit-sliced) is part of the object because   *)
(* the interface has two families of functions, but the value of a matrix  *)
(* is the same mathematical object in both; that every function of both    *)
(* families is described by the same actions below is the statement that   *)
(* representations agree.                                                  *)
(*                                                                         *)
(* A window has no value of its own: it names a rectangle of a root        *)
(* matrix.  Writing through it writes that rectangle and nothing else.     *)
(*                                                                         *)
(* pad is 1 when some bit outside the matrix, in the storage of its last   *)
(* column word, is set.  No action ever sets it: the bits beyond the last  *)
(* column are always clear.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Bitwise, TLC, GF

VARIABLES heap, flds

vars == <<heap, flds>>

---------------------------------------------------------------------------
(* Objects and their values                                                *)

Root(h, o) == IF h[o].par = 0 THEN o ELSE h[o].par

\* value of any matrix object, window or not
Val(h, o) ==
  IF h[o].par = 0 THEN h[o].v
  ELSE Block(h[h[o].par].v, h[o].r0, h[o].c0, h[o].m, h[o].n)

Rows(o) == heap[o].m
Cols(o) == heap[o].n
V(o)    == Val(heap, o)
Field(o) == flds[heap[o].f]            \* minimal polynomial of a matrix
Kind(o) == heap[o].k

\* the heap after the value of o has become M
Write(h, o, M) ==
  IF h[o].par = 0 THEN [h EXCEPT ![o].v = M]
  ELSE LET r == h[o].par
       IN  [h EXCEPT ![r].v = Paste(@, h[r].m, h[r].n, h[o].r0, h[o].c0, M, h[o].m, h[o].n)]

Put(o, M) == heap' = Write(heap, o, M) /\ UNCHANGED flds
Same == UNCHANGED vars

\* depth of a freshly created matrix: one slice per coefficient
DepthFor(k, f) == IF k = "S" THEN Deg(flds[f]) ELSE 0

Obj(k, f, m, n, d, M) ==
  [k |-> k, f |-> f, par |-> 0, r0 |-> 0, c0 |-> 0, m |-> m, n |-> n, pad |-> 0, d |-> d, v |-> M]

Fresh(id) == id \notin DOMAIN heap
Ext(id, ob) == heap' = (id :> ob) @@ heap /\ UNCHANGED flds

\* deliver M (m x n, over the field of object a, in its representation):
\* into the existing object c, or as a new object c when nw = 1
Deliver(nw, c, a, m, n, M) ==
  IF nw = 1
  THEN Fresh(c) /\ Ext(c, Obj(Kind(a), heap[a].f, m, n, DepthFor(Kind(a), heap[a].f), M))
  ELSE Rows(c) = m /\ Cols(c) = n /\ Put(c, M)

---------------------------------------------------------------------------
(* Construction                                                            *)

NewField(id, p) ==
  /\ id \notin DOMAIN flds
  /\ flds' = (id :> p) @@ flds
  /\ UNCHANGED heap

FreeField(id) ==
  /\ flds' = [x \in DOMAIN flds \ {id} |-> flds[x]]
  /\ UNCHANGED heap

NewMatrix(k, id, f, m, n) ==
  Fresh(id) /\ Ext(id, Obj(k, f, m, n, DepthFor(k, f), ZeroMat(m, n)))

\* permutations start as the identity
NewPerm(id, n) ==
  Fresh(id) /\ Ext(id, Obj("P", 0, 1, n, 0, << [i \in 1..n |-> i-1] >>))

\* a polynomial of degree deg has deg+1 coefficients
Slices(d) == (d + 14) \div 15
NewPoly(id, deg, m, n) ==
  /\ Fresh(id)
  /\ IF deg + 1 <= 31 THEN Ext(id, Obj("Y", 0, m, n, deg+1, ZeroMat(m, n)))
     ELSE LET k == Slices(deg+1) IN Ext(id, Obj("L", 0, k*m, n, deg+1, ZeroMat(k*m, n)))

NewWindow(id, a, r0, c0, r1, c1) ==
  /\ Fresh(id)
  /\ 0 <= r0 /\ r0 <= r1 /\ r1 <= Rows(a) /\ 0 <= c0 /\ c0 <= c1 /\ c1 <= Cols(a)
  /\ Ext(id, [k |-> Kind(a), f |-> heap[a].f, par |-> Root(heap, a),
              r0 |-> r0 + heap[a].r0, c0 |-> c0 + heap[a].c0,
              m |-> r1 - r0, n |-> c1 - c0, pad |-> 0, d |-> heap[a].d, v |-> <<>>])

Free(id) ==
  /\ heap' = [x \in DOMAIN heap \ {id} |-> heap[x]]
  /\ UNCHANGED flds

---------------------------------------------------------------------------
(* Elements, copies, assembly                                              *)

ReadElem(a, i, j, r) == r = V(a)[i+1][j+1] /\ Same
ReadAll(a, q) == q = V(a) /\ Same
WriteElem(a, i, j, x) == Put(a, [V(a) EXCEPT ![i+1][j+1] = x])
AddElem(a, i, j, x) == Put(a, [V(a) EXCEPT ![i+1][j+1] = @ ^^ x])
SetUi(a, x) == Put(a, DiagMat(x, Rows(a), Cols(a)))
Copy(nw, b, a) == Deliver(nw, b, a, Rows(a), Cols(a), V(a))
SubMatrix(nw, s, a, r0, c0, r1, c1) ==
  Deliver(nw, s, a, r1-r0, c1-c0, Block(V(a), r0, c0, r1-r0, c1-c0))
Concat(nw, c, a, b) ==
  Deliver(nw, c, a, Rows(a), Cols(a)+Cols(b), [i \in 1..Rows(a) |-> V(a)[i] \o V(b)[i]])
Stack(nw, c, a, b) == Deliver(nw, c, a, Rows(a)+Rows(b), Cols(a), V(a) \o V(b))

\* randomizing fills the matrix with field elements, any of them; and no bit of an
\* element is constant along 64 or more positions (which chance does in one of 2^63 cases)
Varied(sq, e) ==
  /\ FoldLeft(LAMBDA x, y : x | y, 0, sq) = 2^e - 1
  /\ FoldLeft(LAMBDA x, y : x & y, 2^e - 1, sq) = 0
Random(M, m, n, e) ==
  /\ \A i \in 1..m : \A j \in 1..n : M[i][j] \in 0..(2^e - 1)
  /\ n >= 64 => \A i \in 1..m : Varied(M[i], e)
  /\ m >= 64 => \A j \in 1..n : Varied([i \in 1..m |-> M[i][j]], e)
  /\ (m * n >= 64 /\ m < 64 /\ n < 64) => Varied([k \in 1..(m*n) |-> M[((k-1) \div n) + 1][((k-1) % n) + 1]], e)
Randomize(a) ==
  /\ Random(Val(heap', a), Rows(a), Cols(a), Deg(Field(a)))
  /\ heap' = Write(heap, a, Val(heap', a))
  /\ UNCHANGED flds

---------------------------------------------------------------------------
(* Comparison                                                              *)

\* zero exactly for equal matrices; the order of unequal ones is not specified
SameShape(a, b) == heap[a].f = heap[b].f /\ Rows(a) = Rows(b) /\ Cols(a) = Cols(b)
Cmp(a, b, r) == (r = 0 <=> (SameShape(a, b) /\ V(a) = V(b))) /\ Same
IsZero(a, r) == (r # 0 <=> V(a) = ZeroMat(Rows(a), Cols(a))) /\ Same
\* index of the first zero row of a matrix whose zero rows are all at the bottom
FirstZeroRow(a, r) ==
  /\ 0 <= r /\ r <= Rows(a)
  /\ \A i \in 1..Rows(a) : (i <= r) <=> (Lead(V(a)[i], Cols(a)) <= Cols(a))
  /\ Same

---------------------------------------------------------------------------
(* Row and column operations (indices 0-based; columns below c untouched)  *)

AddMultipleOfRow(a, i, b, j, x, c) == Put(a, RowAxpy(Field(a), V(a), i+1, V(b)[j+1], x, c+1))
RescaleRow(a, i, c, x) ==
  Put(a, [V(a) EXCEPT ![i+1] = [j \in 1..Cols(a) |-> IF j > c THEN FMul(Field(a), x, @[j]) ELSE @[j]]])
RowSwap(a, i, j) == Put(a, Swap(V(a), i+1, j+1))
\* row j of b becomes the left part of row i of a
CopyRow(a, i, b, j) ==
  Put(a, [V(a) EXCEPT ![i+1] = [l \in 1..Cols(a) |-> IF l <= Cols(b) THEN V(b)[j+1][l] ELSE @[l]]])
ColSwapRows(a, i, j, lo, hi) ==       \* in rows lo <= row < hi
  Put(a, [r \in 1..Rows(a) |-> IF r > lo /\ r <= hi THEN Swap(V(a)[r], i+1, j+1) ELSE V(a)[r]])
ColSwap(a, i, j) == ColSwapRows(a, i, j, 0, Rows(a))

\* permutations act as sequences of transpositions (i, P[i])
Least(x, y) == IF x < y THEN x ELSE y
PermLen(P, l) == Least(Len(P), l)
PermFwd(s, P) == FoldLeft(LAMBDA acc, i : Swap(acc, i, P[i]+1), s, Upto(PermLen(P, Len(s))))
PermBwd(s, P) == LET n == PermLen(P, Len(s))
                 IN  FoldLeft(LAMBDA acc, k : Swap(acc, n+1-k, P[n+1-k]+1), s, Upto(n))
PV(p) == V(p)[1]

RowsFwd(A, P) == PermFwd(A, P)
RowsBwd(A, P) == PermBwd(A, P)
\* the permutation of positions is computed once and applied to every row
ColsFwd(A, n, P) == LET q == PermFwd(Upto(n), P) IN [i \in DOMAIN A |-> [j \in 1..n |-> A[i][q[j]]]]
ColsBwd(A, n, P) == LET q == PermBwd(Upto(n), P) IN [i \in DOMAIN A |-> [j \in 1..n |-> A[i][q[j]]]]

ApplyPLeft(a, p)       == Put(a, RowsFwd(V(a), PV(p)))
ApplyPLeftTrans(a, p)  == Put(a, RowsBwd(V(a), PV(p)))
ApplyPRight(a, p)      == Put(a, ColsBwd(V(a), Cols(a), PV(p)))
ApplyPRightTrans(a, p) == Put(a, ColsFwd(V(a), Cols(a), PV(p)))
\* transposition i acts only on the rows above row i
TriFwd(A, m, P, l) ==
  FoldLeft(LAMBDA B, i : [r \in 1..m |-> IF r < i THEN Swap(B[r], i, P[i]+1) ELSE B[r]], A, Upto(PermLen(P, l)))
ApplyPRightTransTri(a, p) == Put(a, TriFwd(V(a), Rows(a), PV(p), Cols(a)))

---------------------------------------------------------------------------
(* Sums, scalar multiples, products                                        *)

Sum(A, B, a) == MatAdd(A, B, Rows(a), Cols(a))
Prod(a, b) == MatMul(Field(a), V(a), V(b), Rows(a), Cols(a), Cols(b))

Add(nw, c, a, b) == Deliver(nw, c, a, Rows(a), Cols(a), Sum(V(a), V(b), a))
Scale(nw, c, x, b) == Deliver(nw, c, b, Rows(b), Cols(b), MatScale(Field(b), x, V(b), Rows(b), Cols(b)))
AddScaled(c, x, b) ==
  Put(c, MatAdd(V(c), MatScale(Field(b), x, V(b), Rows(b), Cols(b)), Rows(c), Cols(c)))
Mul(nw, c, a, b) == Deliver(nw, c, a, Rows(a), Cols(b), Prod(a, b))
AddMul(c, a, b) ==
  /\ Rows(c) = Rows(a) /\ Cols(c) = Cols(b)
  /\ Put(c, MatAdd(V(c), Prod(a, b), Rows(c), Cols(c)))

---------------------------------------------------------------------------
(* Change of representation                                                *)

ToSlice(nw, s, a) ==
  IF nw = 1 THEN Fresh(s) /\ Ext(s, Obj("S", heap[a].f, Rows(a), Cols(a), Deg(Field(a)), V(a)))
  ELSE Rows(s) = Rows(a) /\ Cols(s) = Cols(a) /\ Put(s, V(a))
ToPacked(nw, e, a) ==
  IF nw = 1 THEN Fresh(e) /\ Ext(e, Obj("E", heap[a].f, Rows(a), Cols(a), 0, V(a)))
  ELSE Rows(e) = Rows(a) /\ Cols(e) = Cols(a) /\ Put(e, V(a))

---------------------------------------------------------------------------
(* Echelon forms                                                           *)

\* full # 0: the (unique) reduced row echelon form.
\* full = 0: some row echelon form with the same row space.
Echelonize(a, full, r) ==
  LET res == RREF(Field(a), V(a), Rows(a), Cols(a))
      B   == Val(heap', a)
  IN  /\ r = res[2]
      /\ heap' = Write(heap, a, B)
      /\ IF full # 0 THEN B = res[1]
         ELSE /\ IsREF(B, Rows(a), Cols(a))
              /\ RREF(Field(a), B, Rows(a), Cols(a)) = res
      /\ UNCHANGED flds

---------------------------------------------------------------------------
(* PLE and PLUQ                                                            *)

\* B is the matrix left by the decomposition of an m x n matrix of rank r
PleL(B, m, r) == [i \in 1..m |-> [j \in 1..r |-> IF i >= j THEN B[i][j] ELSE 0]]
PleE(B, n, r, Q) == [i \in 1..r |-> [j \in 1..n |-> IF j = Q[i]+1 THEN 1 ELSE IF j > Q[i]+1 THEN B[i][j] ELSE 0]]
PluqU(B, n, r) == [i \in 1..r |-> [j \in 1..n |-> IF j = i THEN 1 ELSE IF j > i THEN B[i][j] ELSE 0]]

ValidPerm(P, n) == Len(P) = n /\ \A i \in 1..n : i - 1 <= P[i] /\ P[i] < n

IsPLE(p, A, m, n, B, P, Q, r) ==
  /\ ValidPerm(P, m)
  /\ r <= n /\ \A i \in 1..r : Q[i] \in 0..(n-1)
  /\ \A i \in 1..(r-1) : Q[i] < Q[i+1]
  /\ \A i \in 1..r : B[i][i] # 0
  /\ MatMul(p, PleL(B, m, r), PleE(B, n, r, Q), m, r, n) = RowsFwd(A, P)

IsPLUQ(p, A, m, n, B, P, Q, r) ==
  /\ ValidPerm(P, m)
  /\ ValidPerm(Q, n)
  /\ \A i \in 1..r : B[i][i] # 0
  /\ ColsBwd(MatMul(p, PleL(B, m, r), PluqU(B, n, r), m, r, n), n, Q) = RowsFwd(A, P)

Decompose(rel(_,_,_,_,_,_,_,_), a, pp, qq, r) ==
  LET B == Val(heap', a)
  IN  /\ heap' = Write(Write(Write(heap, a, B), pp, Val(heap', pp)), qq, Val(heap', qq))
      /\ r = RREF(Field(a), V(a), Rows(a), Cols(a))[2]
      /\ rel(Field(a), V(a), Rows(a), Cols(a), B, Val(heap', pp)[1], Val(heap', qq)[1], r)
      /\ UNCHANGED flds

Ple(a, pp, qq, r)  == Decompose(IsPLE, a, pp, qq, r)
Pluq(a, pp, qq, r) == Decompose(IsPLUQ, a, pp, qq, r)

---------------------------------------------------------------------------
(* Triangular systems, inverses                                            *)

UpperOf(A, n) == [i \in 1..n |-> [j \in 1..n |-> IF j >= i THEN A[i][j] ELSE 0]]
LowerOf(A, n) == [i \in 1..n |-> [j \in 1..n |-> IF j <= i THEN A[i][j] ELSE 0]]

\* b becomes the X with T X = b, T the triangular part of t (diagonal non-zero)
Trsm(T, t, b) ==
  LET X == Val(heap', b)
      n == Rows(t)
  IN  /\ heap' = Write(heap, b, X)
      /\ MatMul(Field(t), T, X, n, n, Cols(b)) = V(b)
      /\ UNCHANGED flds
TrsmUpper(u, b) == Trsm(UpperOf(V(u), Rows(u)), u, b)
TrsmLower(l, b) == Trsm(LowerOf(V(l), Rows(l)), l, b)

Invertible(a) == Rows(a) = Cols(a) /\ RREF(Field(a), V(a), Rows(a), Cols(a))[2] = Rows(a)
Invert(nw, b, a) ==
  LET n == Rows(a)
      B == Val(heap', b)
  IN  /\ Deliver(nw, b, a, n, n, B)
      /\ MatMul(Field(a), V(a), B, n, n, n) = DiagMat(1, n, n)

---------------------------------------------------------------------------
(* Bilinear maps and polynomials over matrices                             *)

\* the product of two polynomials, given as coefficient vectors over GF(2), that
\* the map <<F, G, H>> computes:  H * ((F*a) .* (G*b))
BitVec(a, n) == [i \in 1..n |-> Bit(a, i-1)]

\* F, G, H multiply polynomials of fn and gn coefficients: over GF(2)[x] when p = 0,
\* modulo p otherwise.  A bilinear map is determined by its values on pairs of units
\* x^i, x^j; column i*gn + j + 1 of the matrices below belongs to that pair.
IsPolyMul(p, fn, gn, F, G, H) ==
  LET len == IF p = 0 THEN fn + gn - 1 ELSE Deg(p)
      N   == Len(F)
      pw  == [k \in 0..(fn+gn-2) |-> IF p = 0 THEN [t \in 1..len |-> IF t = k+1 THEN 1 ELSE 0]
                                     ELSE BitVec(IF k = 0 THEN 1 ELSE FoldLeft(LAMBDA x, y : FMul(p, x, 2), 1, Upto(k)), len)]
      Z   == [k \in 1..N |-> [c \in 1..(fn*gn) |-> F[k][((c-1) \div gn) + 1] * G[k][((c-1) % gn) + 1]]]
      W   == [t \in 1..len |-> [c \in 1..(fn*gn) |-> pw[((c-1) \div gn) + ((c-1) % gn)][t]]]
  IN  /\ Len(G) = N /\ Len(H) = len
      /\ \A i \in 1..N : Len(F[i]) = fn /\ Len(G[i]) = gn
      /\ \A i \in 1..len : Len(H[i]) = N
      /\ MatMul(0, H, Z, len, N, fn*gn) = W

NewBlm(id, f, fn, gn, F, G, H) == IsPolyMul(IF f = 0 THEN 0 ELSE flds[f], fn, gn, F, G, H) /\ Same

\* polynomials as sequences of matrices over the polynomials of less than 15 bits
CoeffRows(o) == IF Kind(o) = "L" THEN Rows(o) \div Slices(heap[o].d) ELSE Rows(o)
SlicesOf(o) ==
  IF Kind(o) = "L" THEN [k \in 1..Slices(heap[o].d) |-> SubSeq(V(o), (k-1)*CoeffRows(o) + 1, k*CoeffRows(o))]
  ELSE [k \in 1..3 |-> [i \in 1..Rows(o) |-> [j \in 1..Cols(o) |-> (V(o)[i][j] \div (2^(15*(k-1)))) % (2^15)]]]
\* the product of two of these has less than 29 bits: its low 15 belong to one slice, the others to the next
LongProd(a, b, d) ==
  LET A == SlicesOf(a)
      B == SlicesOf(b)
      m == CoeffRows(a)
      n == Cols(b)
      part == [x \in DOMAIN A |-> [y \in DOMAIN B |-> MatMul(0, A[x], B[y], m, Cols(a), n)]]
      slice(k, i, j) == FoldLeft(LAMBDA acc, x : LET y == k + 1 - x
                                                IN  (IF y \in DOMAIN B THEN part[x][y][i][j] % (2^15) ELSE 0)
                                                    ^^ ((IF y - 1 \in DOMAIN B THEN part[x][y-1][i][j] \div (2^15) ELSE 0) ^^ acc),
                                 0, Upto(Len(A)))
  IN  [r \in 1..(Slices(d)*m) |-> [j \in 1..n |-> slice(((r-1) \div m) + 1, ((r-1) % m) + 1, j)]]
PolyProd(a, b) == MatMul(0, V(a), V(b), Rows(a), Cols(a), Cols(b))
\* c += a*b; a new c starts at zero (its depth is whatever is enough for the product)
PolyAddMul(nw, c, a, b) ==
  LET d == heap[a].d + heap[b].d - 1
  IN  IF nw = 1
      THEN LET e == heap'[c].d
               m == CoeffRows(a)
           IN  /\ Fresh(c) /\ e >= d
               /\ IF e <= 31 THEN Ext(c, Obj("Y", 0, m, Cols(b), e, PolyProd(a, b)))
                  ELSE Ext(c, Obj("L", 0, Slices(e)*m, Cols(b), e, LongProd(a, b, e)))
      ELSE /\ heap[c].d >= d
           /\ Put(c, MatAdd(V(c), IF Kind(c) = "L" THEN LongProd(a, b, heap[c].d) ELSE PolyProd(a, b), Rows(c), Cols(c)))
PolyAdd(c, a, b) == Put(c, MatAdd(V(a), V(b), Rows(a), Cols(a)))
\* the sum of a and b, shifted by off, takes the place of these coefficients of c
PolyAddAt(c, a, b, off) ==
  LET lo == 2^off
      mid == 2^(heap[a].d)
      at(z, x, y) == (z % lo) + (lo * ((x ^^ y) + (mid * (z \div (lo * mid)))))
  IN  /\ heap[a].d = heap[b].d /\ off + heap[a].d <= heap[c].d /\ heap[c].d <= 30
      /\ Put(c, [i \in 1..Rows(c) |-> [j \in 1..Cols(c) |-> at(V(c)[i][j], V(a)[i][j], V(b)[i][j])]])
PolyAdaptDepth(a, d) ==
  /\ heap' = [heap EXCEPT ![a].d = d,
                          ![a].v = [i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> IF d > 30 THEN @[i][j] ELSE @[i][j] % (2^d)]]]
  /\ UNCHANGED flds
\* a bit-sliced matrix with room for products that are not reduced yet: coefficients of x^i for
\* i < d, the new ones zero.  Its entries stay what they are.
SliceAdaptDepth(a, d) ==
  /\ heap[a].par = 0 /\ d >= Deg(Field(a))
  /\ heap' = [heap EXCEPT ![a].d = d]
  /\ UNCHANGED flds

PolyCmp(a, b, r) == (r = 0 <=> (heap[a].d = heap[b].d /\ Rows(a) = Rows(b) /\ Cols(a) = Cols(b) /\ V(a) = V(b))) /\ Same

---------------------------------------------------------------------------
(* Newton-John tables                                                      *)

\* the table of row i of a from column c on: entry x is x times the row, in
\* the columns from c on
MakeTable(a, i, c, q) ==
  LET p == Field(a)
  IN  /\ Len(q) = 2^Deg(p)
      /\ \A x \in 0..(2^Deg(p)-1) : \A j \in (c+1)..Cols(a) : q[x+1][j] = FMul(p, x, V(a)[i+1][j])
      /\ Same

\* rows lo <= i < hi of a have the entries in columns c, c+1, ... eliminated with the
\* rows piv[1], piv[2], ... of a (which hold an identity block in these columns)
ProcessRows(a, lo, hi, c, piv) ==
  LET p == Field(a)
      A == V(a)
      n == Cols(a)
      new(i) == FoldLeft(LAMBDA row, k : LET x == A[i][c+k]
                                         IN  [j \in 1..n |-> row[j] ^^ FMul(p, x, A[piv[k]+1][j])],
                         A[i], Upto(Len(piv)))
  IN  Put(a, [i \in 1..Rows(a) |-> IF i > lo /\ i <= hi THEN new(i) ELSE A[i]])

\* tables that stay.  Columns before c hold nothing of interest, except that the few
\* columns in front of c, where a joint elimination may start, are clear.
TableFrom(p, row, c, q, k) ==
  /\ Len(q) = 2^Deg(p)
  /\ \A x \in 0..(2^Deg(p)-1) :
       /\ Len(q[x+1]) = Len(row)
       /\ \A j \in (c+1)..Len(row) : q[x+1][j] = FMul(p, x, row[j])
       /\ \A j \in Max({1, c-k})..c : q[x+1][j] = 0
TableOf(p, row, c, q) == TableFrom(p, row, c, q, 5)

NewTable(id, f, n) ==
  LET q == 2^Deg(flds[f]) IN Fresh(id) /\ Ext(id, Obj("J", f, q, n, 0, ZeroMat(q, n)))

\* t (q after the call) becomes the table of row i of a from column c on, whatever it was before
FillTable(nw, t, a, i, c, q) ==
  /\ TableOf(Field(a), V(a)[i+1], c, q)
  /\ IF nw = 1 THEN Fresh(t) /\ Ext(t, Obj("J", heap[a].f, Len(q), Cols(a), 0, q))
     ELSE heap[t].f = heap[a].f /\ Cols(t) = Cols(a) /\ Put(t, q)

\* to each of the rows lo <= i < hi of a, what the tables have for its entries in columns c, c+1, ...
UseTables(a, lo, hi, c, ts) ==
  LET A == V(a)
      n == Cols(a)
      new(i) == FoldLeft(LAMBDA row, k : LET t == heap[ts[k]].v[A[i][c+k] + 1]
                                         IN  [j \in 1..n |-> IF j > c THEN row[j] ^^ t[j] ELSE row[j]],
                         A[i], Upto(Len(ts)))
  IN  Put(a, [i \in 1..Rows(a) |-> IF i > lo /\ i <= hi THEN new(i) ELSE A[i]])

---------------------------------------------------------------------------
(* What the library holds                                                  *)

\* matrices over GF(2) that make up an object, a window having as many as the whole
Parts(o) == CASE heap[o].k = "E" -> 1 [] heap[o].k = "J" -> 2 [] heap[o].k \in {"S", "Y", "L"} -> heap[o].d [] OTHER -> 0

\* mats matrices over GF(2), perms permutations and blks blocks of memory are held:
\* those of the live objects, and nothing when there is no object and no field
Account(mats, perms, blks) ==
  /\ mats = MapThenSumSet(Parts, DOMAIN heap)
  /\ perms = Cardinality({o \in DOMAIN heap : heap[o].k = "P"})
  /\ heap = <<>> /\ flds = <<>> => blks = 0
  /\ Same

---------------------------------------------------------------------------
(* Checked preconditions: calls that end the program with a diagnostic     *)
(* instead of computing something                                          *)

DimsMatchAdd(nw, c, a, b) ==
  /\ SameShape(a, b)
  /\ nw = 1 \/ SameShape(c, a)
DimsMatchMul(nw, c, a, b) ==
  /\ Cols(a) = Rows(b) /\ heap[a].f = heap[b].f
  /\ nw = 1 \/ (heap[c].f = heap[a].f /\ Rows(c) = Rows(a) /\ Cols(c) = Cols(b))
DimsMatchCopy(nw, c, a) == nw = 1 \/ SameShape(c, a)
DimsMatchConcat(nw, c, a, b) ==
  Rows(a) = Rows(b) /\ (nw = 1 \/ (Rows(c) = Rows(a) /\ Cols(c) = Cols(a) + Cols(b)))
DimsMatchStack(nw, c, a, b) ==
  Cols(a) = Cols(b) /\ (nw = 1 \/ (Rows(c) = Rows(a) + Rows(b) /\ Cols(c) = Cols(a)))

---------------------------------------------------------------------------
(* Invariants of every reachable state                                     *)

IsMatrixOver(M, m, n, top) ==
  Len(M) = m /\ \A i \in 1..m : Len(M[i]) = n /\ \A j \in 1..n : M[i][j] \in 0..top

ObjOK(h, o) ==
  /\ h[o].pad = 0
  /\ IF h[o].par = 0
     THEN CASE h[o].k \in {"E", "S"} ->
                 /\ h[o].f \in DOMAIN flds
                 /\ (h[o].d = DepthFor(h[o].k, h[o].f) \/ (h[o].k = "S" /\ h[o].d > DepthFor("S", h[o].f)))
                 /\ IsMatrixOver(h[o].v, h[o].m, h[o].n, 2^Deg(flds[h[o].f]) - 1)
            [] h[o].k = "Y" -> \* (coefficients beyond the 31st have to vanish, an element being a 31 bit number)
                 IsMatrixOver(h[o].v, h[o].m, h[o].n, IF h[o].d > 30 THEN 2147483647 ELSE 2^h[o].d - 1)
            [] h[o].k = "L" ->
                 LET k == Slices(h[o].d)
                     m == h[o].m \div k
                 IN  /\ h[o].d > 31 /\ h[o].m = k * m
                     /\ IsMatrixOver(h[o].v, h[o].m, h[o].n, 2^15 - 1)
                     /\ \A i \in ((k-1)*m + 1)..(k*m) : \A j \in 1..h[o].n : h[o].v[i][j] < 2^(h[o].d - 15*(k-1))
            [] h[o].k = "J" ->
                 LET q == 2^Deg(flds[h[o].f]) IN h[o].m = q /\ IsMatrixOver(h[o].v, q, h[o].n, q - 1)
            [] h[o].k = "P" -> h[o].m = 1 /\ Len(h[o].v[1]) = h[o].n
            [] OTHER -> TRUE
     ELSE /\ h[h[o].par].par = 0 /\ h[h[o].par].k = h[o].k
          /\ h[o].r0 + h[o].m <= h[h[o].par].m /\ h[o].c0 + h[o].n <= h[h[o].par].n

TypeOK == \A o \in DOMAIN heap : ObjOK(heap, o)
=============================================================================
