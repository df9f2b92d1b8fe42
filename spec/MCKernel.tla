------------------------------ MODULE MCKernel -----------------------------
(***************************************************************************)
(* Do the Java evaluations of GF's operators agree with their definitions  *)
(* in GFDef?  One state per test case; the invariant compares them.  Small *)
(* fields and shapes are compared on all / very many values, larger fields *)
(* on sampled ones.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
D == INSTANCE GFDef
G == INSTANCE GF

VARIABLE tc

\* deterministic "arbitrary" elements
H(a, b, c) == ((a * 7919 + b * 104729 + c * 1299709 + 12345) % 65536)
Mat(s, p, m, n) == [i \in 1..m |-> [j \in 1..n |->
                      IF H(s, i*17, j) % 5 = 0 THEN 0 ELSE H(s, i, j*31) % (2^D!Deg(p))]]

Polys == {7, 11, 13, 19, 31, 37, 283, 487, 1033, 69643, 66525}

Cases ==
  { [t |-> "field", p |-> p, a |-> a, b |-> 0] : p \in {7, 11, 19}, a \in 0..15 }
  \cup { [t |-> "fieldbig", p |-> p, a |-> a, b |-> b] : p \in Polys, a \in 1..6, b \in 1..4 }
  \cup { [t |-> "mat", p |-> p, a |-> a, b |-> b] : p \in Polys \cup {0}, a \in 1..4, b \in 0..3 }

Irr == { [t |-> "irr", p |-> 0, a |-> a, b |-> b] : a \in 1..10, b \in 0..3 } \cup { [t |-> "irr", p |-> 0, a |-> a, b |-> b] : a \in 13..16, b \in 0..0 }

Init == tc \in Cases \cup Irr
Next == UNCHANGED tc

Q(p) == 2^D!Deg(p)
FieldOK == tc.t = "field" /\ tc.a < Q(tc.p) =>
  \A b \in 0..(Q(tc.p)-1) :
    /\ G!FMul(tc.p, tc.a, b) = D!FMul(tc.p, tc.a, b)
    /\ tc.a # 0 => G!FInv(tc.p, tc.a) = D!FInv(tc.p, tc.a)
FieldBigOK == tc.t = "fieldbig" =>
  LET x == H(tc.a, tc.b, 1) % Q(tc.p)
      y == H(tc.a, tc.b, 2) % Q(tc.p)
  IN  /\ G!FMul(tc.p, x, y) = D!FMul(tc.p, x, y)
      /\ G!PMul(x, y) = D!PMul(x, y)
      /\ G!PMul(tc.b % 4, x * 2^12 + y) = D!PMul(tc.b % 4, x * 2^12 + y)
      /\ G!PMod(x * 8 + y, tc.p) = D!PMod(x * 8 + y, tc.p)
      /\ G!Deg(x+1) = D!Deg(x+1)
      /\ x # 0 => D!FMul(tc.p, x, G!FInv(tc.p, x)) = 1
MatOK == tc.t = "mat" =>
  LET p == tc.p
      q == IF p = 0 THEN 31 ELSE p
      m == tc.a
      k == tc.b
      n == 1 + ((tc.a + tc.b) % 4)
      A == Mat(1, q, m, k)
      B == Mat(2, q, k, n)
      C == Mat(3, q, m, n)
      S == Mat(4, q, m, n)
      E == [i \in 1..m |-> IF i % 3 = 0 THEN C[1] ELSE C[i]]
  IN  /\ G!MatMul(p, A, B, m, k, n) = D!MatMul(p, A, B, m, k, n)
      /\ G!MatAdd(C, S, m, n) = D!MatAdd(C, S, m, n)
      /\ G!MatScale(p, 5, C, m, n) = D!MatScale(p, 5, C, m, n)
      /\ G!Block(C, 1, 0, m-1, n-1) = D!Block(C, 1, 0, m-1, n-1)
      /\ G!Paste(C, m, n, 1, 1, S, m-1, n-1) = D!Paste(C, m, n, 1, 1, S, m-1, n-1)
      /\ G!ZeroMat(m, k) = D!ZeroMat(m, k)
      /\ G!DiagMat(3, m, n) = D!DiagMat(3, m, n)
      /\ G!IsREF(C, m, n) = D!IsREF(C, m, n)
      /\ \A i \in 1..m : G!Lead(C[i], n) = D!Lead(C[i], n)
      /\ p # 0 /\ p < 500 => /\ G!RREF(p, E, m, n) = D!RREF(p, E, m, n)
                  /\ D!IsRREF(D!RREF(p, E, m, n)[1], m, n)
                  /\ G!IsREF(G!RREF(p, E, m, n)[1], m, n)
\* irreducibility, and the number of irreducible polynomials of a degree
IrrOK == tc.t = "irr" =>
  LET d == tc.a
      lo == 2^d
      some == IF d <= 8 THEN lo..(2*lo-1) ELSE {lo + (H(tc.b, d, i) % lo) : i \in 1..12} \cup {69643, 66525, 65537, 65579}
  IN  /\ \A p \in some : G!Irreducible(p) = D!Irreducible(p)
      /\ d <= 12 => Cardinality({p \in lo..(2*lo-1) : G!Irreducible(p)}) = D!IrrCount(d)
      /\ d = 16 => D!IrrCount(d) = 4080
KernelOK == IrrOK /\ FieldOK /\ FieldBigOK /\ MatOK
=============================================================================
