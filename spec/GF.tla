-------------------------------- MODULE GF ---------------------------------
(***************************************************************************)
(* The operators of GFDef under the names the other modules use.  The ones *)
(* that dominate the run time of trace checking (products, elimination,    *)
(* blocks) are evaluated by TLC through Java module overrides              *)
(* (java/GFKernel.java), in the way CommunityModules overrides its own     *)
(* operators.  Their meaning is the right-hand side given here; the        *)
(* configuration MCKernel checks on every run that override and definition *)
(* agree.                                                                  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL D == INSTANCE GFDef

Bit(a, i) == D!Bit(a, i)
Upto(n) == D!Upto(n)
Deg(a) == D!Deg(a)
Elems(p) == D!Elems(p)
PMul(a, b) == D!PMul(a, b)
PMod(a, p) == D!PMod(a, p)
FMul(p, a, b) == D!FMul(p, a, b)
FInv(p, a) == D!FInv(p, a)
Irreducible(p) == D!Irreducible(p)
IrrCount(n) == D!IrrCount(n)
ZeroMat(m, n) == D!ZeroMat(m, n)
DiagMat(a, m, n) == D!DiagMat(a, m, n)
MatAdd(A, B, m, n) == D!MatAdd(A, B, m, n)
MatScale(p, a, A, m, n) == D!MatScale(p, a, A, m, n)
MatMul(p, A, B, m, k, n) == D!MatMul(p, A, B, m, k, n)
Block(A, r0, c0, m, n) == D!Block(A, r0, c0, m, n)
Paste(A, am, an, r0, c0, B, m, n) == D!Paste(A, am, an, r0, c0, B, m, n)
RowAxpy(p, A, i, src, x, c) == D!RowAxpy(p, A, i, src, x, c)
Swap(s, i, j) == D!Swap(s, i, j)
RREF(p, A, m, n) == D!RREF(p, A, m, n)
Lead(row, n) == D!Lead(row, n)
IsREF(A, m, n) == D!IsREF(A, m, n)
IsRREF(A, m, n) == D!IsRREF(A, m, n)
=============================================================================
