------------------------------ MODULE MCBilinear -----------------------------
(***************************************************************************)
(* Products of polynomials by evaluation: a bilinear map <<F, G, H>> gives *)
(* H * ((F*a) .* (G*b)).  Three questions, each for all small cases:       *)
(*                                                                         *)
(*   "means"  IsPolyMul, which only looks at pairs of powers of x, says    *)
(*            that the map multiplies all polynomials; and there is none   *)
(*            with fewer products than the theory allows                   *)
(*   "crt"    reduction modulo coprime moduli, and products modulo each,   *)
(*            determine the product as soon as the degrees of the moduli   *)
(*            add up to its length (the modulus at infinity included),     *)
(*            and do not when they add up to less                          *)
(*   "plan"   the plan the library chooses is enough for the lengths asked *)
(*            for, and only uses as many moduli as there are               *)
(***************************************************************************)
EXTENDS M4rieGen
CONSTANT Jobs
VARIABLES job, x
bvars == <<heap, flds, log, cnt, opq, nzd, job, x>>

XorSeq(q) == FoldLeft(LAMBDA acc, y : acc ^^ y, 0, q)
Apply(M, v) == [i \in DOMAIN M |-> XorSeq([j \in DOMAIN v |-> M[i][j] * v[j]])]
Vecs(k) == [1..k -> {0, 1}]

---------------------------------------------------------------------------
(* means: job = <<"means", fn, gn, N, same>>, x = <<F, G, H>>              *)
Multiplies(F, G, H, fn, gn) ==
  \A a \in Vecs(fn) : \A b \in Vecs(gn) :
    LET Fa == Apply(F, a)
        Gb == Apply(G, b)
        c  == Apply(H, [i \in DOMAIN Fa |-> Fa[i] * Gb[i]])
    IN  \A t \in 0..(fn+gn-2) : c[t+1] = XorSeq([i \in 1..fn |-> IF t - i + 1 \in 0..(gn-1) THEN a[i] * b[t-i+2] ELSE 0])
Rank(p, M, m, n) == RREF(p, M, m, n)[2]
MeansLaw ==
  LET fn == job[2]
      gn == job[3]
      N  == job[4]
  IN  /\ IsPolyMul(0, fn, gn, x[1], x[2], x[3]) <=> Multiplies(x[1], x[2], x[3], fn, gn)
      /\ N < fn + gn - 1 \/ (fn = 2 /\ gn = 2 /\ N < 3) => ~IsPolyMul(0, fn, gn, x[1], x[2], x[3])

---------------------------------------------------------------------------
(* crt: job = <<"crt", top>>, x = <<fn, gn, omega, set of moduli>>         *)

Karatsuba2 == << <<1,0>>, <<1,1>>, <<0,1>> >>
Kron(X, Y) == LET c == Len(Y)
                  l == Len(Y[1])
              IN  [i \in 1..(Len(X)*c) |-> [j \in 1..(Len(X[1])*l) |-> X[((i-1) \div c)+1][((j-1) \div l)+1] * Y[((i-1) % c)+1][((j-1) % l)+1]]]
SmallMap(d) == CASE d = 1 -> << <<1>> >>
              [] d = 2 -> Karatsuba2
              [] d = 3 -> << <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<1,1,0>>, <<1,0,1>>, <<0,1,1>> >>
              [] d = 4 -> Kron(Karatsuba2, Karatsuba2)
\* reduction of a polynomial of len coefficients modulo q; modulo (x - infinity)^d it keeps the top d
ModRed(len, q, d) ==
  IF q = 0 THEN [i \in 1..d |-> [j \in 1..len |-> IF j = len - i + 1 THEN 1 ELSE 0]]
  ELSE [i \in 1..d |-> [j \in 1..len |-> Bit(PMod(2^(j-1), q), i-1)]]
Part(len, q, d) == [i \in DOMAIN SmallMap(d) |-> [j \in 1..len |-> XorSeq([t \in 1..d |-> SmallMap(d)[i][t] * ModRed(len, q, d)[t][j]])]]
EvalMat(len, omega, ms) ==
  FoldLeft(LAMBDA acc, q : acc \o Part(len, q, Deg(q)), IF omega = 0 THEN <<>> ELSE Part(len, 0, omega), SetToSeq(ms))

\* H exists: what F and G see of a product determines its coefficients
Determined(fn, gn, F, G) ==
  LET N == Len(F)
      c == fn * gn
      Z == [k \in 1..N |-> [t \in 1..c |-> F[k][((t-1) \div gn) + 1] * G[k][((t-1) % gn) + 1]]]
      V1 == [k \in 1..(fn+gn-1) |-> [t \in 1..c |-> IF ((t-1) \div gn) + ((t-1) % gn) = k-1 THEN 1 ELSE 0]]
  IN  Rank(3, Z, N, c) = Rank(3, Z \o V1, N + fn + gn - 1, c)

Degrees(ms) == FoldLeft(LAMBDA acc, q : acc + Deg(q), 0, SetToSeq(ms))
\* x, x+1, their squares, the irreducible polynomials of degrees 2 to 4
Moduli == {2, 3, 4, 5, 7, 11, 13, 19, 25, 31}
Coprime(ms) == ~({2, 4} \subseteq ms) /\ ~({3, 5} \subseteq ms)
Plans(top) == {<<om, ms>> \in (0..3) \X (SUBSET Moduli) : Coprime(ms) /\ om + Degrees(ms) <= top /\ om + Degrees(ms) > 0}
CrtLaw ==
  LET fn == x[1]
      gn == x[2]
      om == x[3]
      ms == x[4]
      F == EvalMat(fn, om, ms)
      G == EvalMat(gn, om, ms)
      enough == om + Degrees(ms) >= fn + gn - 1
  IN  /\ enough => Determined(fn, gn, F, G)
      \* less is not enough, unless the parts, having up to 2d-1 coefficients each, see more than their remainder
      /\ (~enough /\ \A q \in ms : Deg(q) = 1) /\ om <= 1 => ~Determined(fn, gn, F, G)

---------------------------------------------------------------------------
(* plan: job = <<"plan", top>>, x = <<fn, gn>>                             *)

Costs == <<0, 1, 3, 6, 9, 13, 17, 22, 27, 31, 36, 40, 45, 49, 55, 60, 64>>
Count(d) == IrrCount(d)
Top == 16

\* as many moduli of each degree as there are, until their degrees are enough; the last of them
\* only as many as needed; one modulus of the excess degree dropped
RECURSIVE Fill(_, _, _, _)
Fill(pl, have, need, d) ==
  IF have >= need THEN <<pl, have>>
  ELSE LET k == IF have + d * Count(d) < need THEN Count(d) ELSE ((need - have) + d - 1) \div d
       IN  Fill([pl EXCEPT ![d] = k], have + d * k, need, d + 1)
PlanFor(fn, gn, om) ==
  LET need == fn + gn - 1 - om
      f == Fill([d \in 1..Top |-> 0], 0, need, 1)
      diff == f[2] - need
  IN  IF need > 0 /\ diff # 0 /\ f[1][diff] > 0 THEN [f[1] EXCEPT ![diff] = @ - 1] ELSE f[1]
Cost(om, pl) == FoldLeft(LAMBDA acc, d : acc + Costs[d+1] * pl[d], Costs[om+1], Upto(Top))
Chosen(fn, gn) ==
  FoldLeft(LAMBDA best, o : LET pl == PlanFor(fn, gn, o-1)
                                c  == Cost(o-1, pl)
                            IN  IF best = <<>> \/ c < best[3] THEN <<o-1, pl, c>> ELSE best,
           <<>>, Upto(8))
Total(om, pl) == om + FoldLeft(LAMBDA acc, d : acc + d * pl[d], 0, Upto(Top))
PlanLaw ==
  LET fn == x[1]
      gn == x[2]
      c  == Chosen(fn, gn)
  IN  /\ Total(c[1], c[2]) >= fn + gn - 1
      /\ \A d \in 1..Top : c[2][d] >= 0 /\ c[2][d] <= Count(d)      \* no modulus twice, no squares needed
      \* no fewer products than any way of multiplying needs
      /\ c[3] >= fn + gn - 1

---------------------------------------------------------------------------
Mats01(a, b) == [1..a -> [1..b -> {0, 1}]]
Cases(j) ==
  CASE j[1] = "means" -> IF j[5] THEN {<<F, F, H>> : F \in Mats01(j[4], j[2]), H \in Mats01(j[2]+j[3]-1, j[4])}
                         ELSE Mats01(j[4], j[2]) \X Mats01(j[4], j[3]) \X Mats01(j[2]+j[3]-1, j[4])
    [] j[1] = "crt"   -> {<<fn, gn, pl[1], pl[2]>> : fn \in 1..j[3], gn \in 1..j[3], pl \in Plans(j[2])}
    [] j[1] = "plan"  -> (1..j[2]) \X (1..j[2])
BInit == GInit /\ job \in Jobs /\ x \in Cases(job)
BSpec == BInit /\ [][UNCHANGED bvars]_bvars
Laws == CASE job[1] = "means" -> MeansLaw [] job[1] = "crt" -> CrtLaw [] job[1] = "plan" -> PlanLaw
QuickBil == {<<"means", 2, 2, 2, FALSE>>, <<"means", 2, 1, 2, FALSE>>, <<"means", 2, 2, 3, TRUE>>, <<"crt", 6, 3>>, <<"plan", 16>>}
FullBil == QuickBil \cup {<<"means", 2, 1, 3, FALSE>>, <<"means", 1, 3, 2, FALSE>>, <<"means", 1, 2, 3, FALSE>>, <<"crt", 8, 4>>, <<"plan", 40>>}
=============================================================================
