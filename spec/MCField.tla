------------------------------- MODULE MCField ------------------------------
(***************************************************************************)
(* The arithmetic every other module rests on is that of a field: checked  *)
(* for every irreducible polynomial of degree 1 to MaxDeg and all triples  *)
(* of elements.  Division with remainder in GF(2)[x] and the count of the  *)
(* irreducible polynomials, which the traces of P01 are judged by, are     *)
(* checked against their definitions as well.                              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Bitwise, GF
CONSTANT MaxDeg
VARIABLES p, a, b, c
vars == <<p, a, b, c>>

Polys == {q \in 2..(2^(MaxDeg+1)-1) : Irreducible(q)}
Init == p \in Polys /\ a \in Elems(p) /\ b \in Elems(p) /\ c \in Elems(p)
Spec == Init /\ [][UNCHANGED vars]_vars

M(x, y) == FMul(p, x, y)
Closed == M(a, b) \in Elems(p)
Commutes == M(a, b) = M(b, a)
Associates == M(a, M(b, c)) = M(M(a, b), c)
Distributes == M(a, b ^^ c) = M(a, b) ^^ M(a, c)
Unit == M(1, a) = a
NoZeroDivisors == M(a, b) = 0 <=> a = 0 \/ b = 0
Inverses == a # 0 => M(a, FInv(p, a)) = 1 /\ \A x \in Elems(p) : M(a, x) = 1 => x = FInv(p, a)
\* every element is a root of x^q - x
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE M(x, Pow(x, k-1))
Frobenius == b = 0 /\ c = 0 => Pow(a, 2^Deg(p)) = a

\* in GF(2)[x]: a = q*b + (a mod b) for exactly one q, the remainder being smaller
Division == b # 0 /\ c = 0 =>
  /\ PMod(a, b) = 0 \/ Deg(PMod(a, b)) < Deg(b)
  /\ Cardinality({q \in Elems(p) : PMul(q, b) ^^ PMod(a, b) = a}) = 1

Count == a = 0 /\ b = 0 /\ c = 0 =>
  Cardinality({q \in Polys : Deg(q) = Deg(p)}) = IrrCount(Deg(p))
\* no factors at all, not only none of small degree
Factors == a = 0 /\ b = 0 /\ c = 0 =>
  \A x \in 2..(p-1) : \A y \in 2..(p-1) : Deg(x) + Deg(y) = Deg(p) => PMul(x, y) # p
=============================================================================
