------------------------------ MODULE M4rieGen ------------------------------
(***************************************************************************)
(* Behaviours of M4rie for the library to follow.                          *)
(*                                                                         *)
(* TLC simulates this module: it walks through M4rie, choosing at every    *)
(* step some function of the interface and arguments for it among the live *)
(* objects, and writes down the calls.  The library then makes the same    *)
(* calls (bin/check.py, harness/m4x.c), and M4rieTrace decides whether     *)
(* what it did is a behaviour of M4rie.                                    *)
(*                                                                         *)
(* A walk mixes many fields, sizes, representations and windows over       *)
(* matrices that live long, are overwritten, freed and created again; what *)
(* a call may do depends on nothing but the values of its operands, so a   *)
(* library that keeps anything else from call to call shows it here.       *)
(*                                                                         *)
(* Where M4rie leaves a choice to the library (a PLE decomposition, a row  *)
(* echelon form that is not reduced) this module takes one of the allowed  *)
(* steps; the library may take another.  The objects whose value may then  *)
(* differ are remembered in opq, and nothing that needs a particular value *)
(* is asked of them afterwards, except that a factor of a decomposition of *)
(* full rank has no zero on its diagonal (nzd).                            *)
(***************************************************************************)
EXTENDS M4rie

CONSTANT Steps          \* calls per history

VARIABLES
  log,      \* the calls so far, as lines of a script
  cnt,      \* handles used so far
  opq,      \* roots whose value is not determined by the calls alone
  nzd       \* matrices among or in these that have a diagonal without zeros

gvars == <<heap, flds, log, cnt, opq, nzd>>

\* a random element, if there is one
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

Line(name, args) == FoldLeft(LAMBDA s, x : s \o " " \o ToString(x), name, args)

---------------------------------------------------------------------------
(* What there is                                                           *)

Mats == {o \in DOMAIN heap : heap[o].k \in {"E", "S"}}
Perms == {o \in DOMAIN heap : heap[o].k = "P"}
Polys == {o \in DOMAIN heap : heap[o].k = "Y"}
IsRoot(o) == heap[o].par = 0
Roots == {o \in Mats : IsRoot(o)}
OfKind(k) == {o \in Mats : heap[o].k = k}
Like(k, f, m, n) == {o \in Mats : heap[o].k = k /\ heap[o].f = f /\ heap[o].m = m /\ heap[o].n = n}
Apart(o, p) == Root(heap, o) # Root(heap, p)
Known(o) == Root(heap, o) \notin opq
Card(o) == 2^Deg(Field(o))
New == cnt + 1
Pre(k) == IF k = "E" THEN "mzed" ELSE "mzd_slice"

\* elements per word of a packed matrix, and the alignment of windows
PerWord(p) == LET d == Deg(p) IN IF d <= 2 THEN 32 ELSE IF d <= 4 THEN 16 ELSE IF d <= 8 THEN 8 ELSE 4
Align(k, p) == IF k = "S" THEN 64 ELSE PerWord(p)

---------------------------------------------------------------------------
(* Bookkeeping of a step: the call, the root it writes (0: none), the      *)
(* objects it reads, whether it determines the whole written root          *)

Did(ln, dst, srcs, whole) ==
  /\ log' = Append(log, ln)
  /\ opq' = IF dst = 0 THEN opq
            ELSE LET d == Root(heap', dst)
                 IN  IF \E s \in srcs : Root(heap, s) \in opq THEN opq \cup {d}
                     ELSE IF whole /\ heap'[dst].par = 0 THEN opq \ {d} ELSE opq
  /\ nzd' = IF dst = 0 THEN nzd ELSE {x \in nzd : Root(heap, x) # Root(heap', dst)}
  /\ cnt' = IF dst # 0 /\ dst \notin DOMAIN heap THEN dst ELSE cnt

Reads(ln) == log' = Append(log, ln) /\ UNCHANGED <<opq, nzd, cnt>>

\* a target for an m x n result over field f in representation k: a new object
\* (nw = 1) or an existing one that shares no storage with the operands
Targets(k, f, m, n, srcs) ==
  LET old == {c \in Like(k, f, m, n) : \A s \in srcs : Apart(c, s)}
  IN  (IF old = {} \/ Cardinality(DOMAIN heap) < 18 THEN {<<1, New>>} ELSE {}) \cup (IF old = {} THEN {} ELSE {<<0, RandomElement(old)>>})

Bang(nw) == IF nw = 1 THEN "!" ELSE ""

---------------------------------------------------------------------------
(* Construction and input data                                             *)

Irr == [e \in 2..8 |-> {p \in 2^e..(2^(e+1)-1) : Irreducible(p)}]
SomeIrr(e) ==
  IF e <= 8 THEN One(Irr[e])
  ELSE One({p \in {RandomElement(2^e..(2^(e+1)-1)) : i \in 1..80} : Irreducible(p)})

GenField ==
  /\ Cardinality(DOMAIN flds) < 4
  \* often of a degree that another one has, so that nothing but the polynomial differs
  /\ \E e \in One(IF flds # <<>> /\ RandomElement(1..5) > 2 THEN {Deg(flds[f]) : f \in DOMAIN flds} ELSE 2..16) : \E p \in SomeIrr(e) :
       /\ NewField(New, p)
       /\ log' = Append(log, Line("field", <<New, p>>)) /\ cnt' = New /\ UNCHANGED <<opq, nzd>>

GenFieldFree ==
  \E f \in One({x \in DOMAIN flds : \A o \in DOMAIN heap : heap[o].f # x}) :
    FreeField(f) /\ Reads(Line("field_free", <<f>>))

Small == {1, 2, 3, 4, 5, 6, 9}
Wide == Small \cup {12, 17, 31, 33, 63, 64, 65, 66, 80, 130}
\* mostly sizes that are in use already, so that operands that fit can be found
Sizes(S) == LET old == {heap[o].m : o \in Mats} \cup {heap[o].n : o \in Mats}
            IN  IF old # {} /\ RandomElement(1..4) > 1 THEN One(old) ELSE One(S)

GenMatrix ==
  /\ Cardinality(DOMAIN heap) < 16
  /\ \E f \in One(DOMAIN flds) : \E k \in One({"E", "S"}) : \E m \in Sizes(Small) : \E n \in Sizes(Wide) :
       /\ m * n <= 700
       /\ NewMatrix(k, New, f, m, n)
       /\ Did(Line(Pre(k) \o "_init", <<New, f, m, n>>), New, {}, TRUE)

GenPerm ==
  /\ Cardinality(Perms) < 7
  /\ \E o \in One(Mats) : \E n \in One({Rows(o), Cols(o)}) :
       Cardinality({p \in Perms : Cols(p) = n}) < 2 /\
       NewPerm(New, n) /\ Did(Line("mzp_init", <<New, n>>), New, {}, TRUE)

GenPoly ==
  /\ Cardinality(Polys) < 6
  /\ \E d \in One(0..7) : \E m \in One({1, 2, 3, 65}) : \E n \in One({1, 2, 3, 65}) :
       m * n < 300 /\ NewPoly(New, d, m, n) /\ Did(Line("mzd_poly_init", <<New, d, m, n>>), New, {}, TRUE)

GenWindow ==
  /\ Cardinality(DOMAIN heap) < 16
  /\ \E a \in One(Mats) : \E cw \in One(0..((Cols(a)-1) \div Align(Kind(a), Field(a)))) :
     \E r0 \in One(0..(Rows(a)-1)) : \E r1 \in One((r0+1)..Rows(a)) :
     LET c0 == cw * Align(Kind(a), Field(a))
     IN  \E c1 \in One((c0+1)..Cols(a)) :
           /\ NewWindow(New, a, r0, c0, r1, c1)
           /\ Did(Line(Pre(Kind(a)) \o "_init_window", <<New, a, r0, c0, r1, c1>>), New, {}, FALSE)

GenFree ==
  \E o \in One({x \in DOMAIN heap : \A w \in DOMAIN heap : heap[w].par # x}) :
    /\ Free(o)
    /\ log' = Append(log, Line("free", <<o>>))
    /\ opq' = opq \ {o} /\ nzd' = nzd \ {o} /\ UNCHANGED cnt

\* input data: a formula that the harness evaluates too
Form(t, s1, s2, i, j, q) ==
  LET base(k) == (k*k*73 + j*j*151 + ((k*j) % 977)*s1 + s2) % 65521
  IN  CASE t = 0 -> base(i) % q
        [] t = 1 -> IF (base(i) \div 7) % 4 = 0 THEN base(i) % q ELSE 0
        [] t = 2 -> base(((i-1) % 2) + 1) % q
        [] OTHER -> IF i = j THEN 1 + (base(i) % (q-1)) ELSE base(i) % q

GenFill ==
  \E o \in One(Mats) : \E t \in One(0..3) : \E s1 \in One(0..65520) : \E s2 \in One(0..65520) :
    LET q == Card(o)
    IN  /\ Put(o, [i \in 1..Rows(o) |-> [j \in 1..Cols(o) |-> Form(t, s1, s2, i, j, q)]])
        /\ Did(Line("form", <<o, t, s1, s2>>), o, {}, TRUE)

GenFillZero ==
  \E o \in One({x \in Roots : V(x) = ZeroMat(Rows(x), Cols(x))}) :
  \E t \in One(0..3) : \E s1 \in One(0..65520) : \E s2 \in One(0..65520) :
    LET q == Card(o)
    IN  /\ Put(o, [i \in 1..Rows(o) |-> [j \in 1..Cols(o) |-> Form(t, s1, s2, i, j, q)]])
        /\ Did(Line("form", <<o, t, s1, s2>>), o, {}, TRUE)

GenFillPoly ==
  \E o \in One(Polys) : \E t \in One(0..2) : \E s1 \in One(0..65520) : \E s2 \in One(0..65520) :
    LET q == 2^(Least(heap[o].d, 16))
    IN  /\ Put(o, [i \in 1..Rows(o) |-> [j \in 1..Cols(o) |-> Form(t, s1, s2, i, j, q)]])
        /\ Did(Line("form", <<o, t, s1, s2>>), o, {}, TRUE)

GenFillPerm ==
  \E p \in One(Perms) : \E s1 \in One(0..9999) : \E s2 \in One(0..9999) :
    LET n == Cols(p)
        P == [i \in 1..n |-> (i-1) + ((s1*i + i*i + s2) % (n-i+1))]
    IN  Put(p, <<P>>) /\ Did(Line("set", <<p>> \o P), p, {}, TRUE)

---------------------------------------------------------------------------
(* Elements, copies, assembly, comparison                                  *)

GenElem ==
  \E a \in One(Mats) : \E i \in One(0..(Rows(a)-1)) : \E j \in One({0, Cols(a)-1, RandomElement(0..(Cols(a)-1))}) :
  \E x \in One(0..(Card(a)-1)) : \E w \in One(1..3) :
    CASE w = 1 -> WriteElem(a, i, j, x) /\ Did(Line(Pre(Kind(a)) \o "_write_elem", <<a, i, j, x>>), a, {}, FALSE)
      [] w = 2 -> AddElem(a, i, j, x) /\ Did(Line(Pre(Kind(a)) \o "_add_elem", <<a, i, j, x>>), a, {}, FALSE)
      [] w = 3 -> ReadElem(a, i, j, V(a)[i+1][j+1]) /\ Reads(Line(Pre(Kind(a)) \o "_read_elem", <<a, i, j>>))

GenReadAll == \E a \in One(Mats) : ReadAll(a, V(a)) /\ Reads(Line(Pre(Kind(a)) \o "_read_all", <<a>>))
GenAudit == Same /\ Reads("audit")
GenPrint == \E a \in One({x \in Mats : Rows(x) * Cols(x) < 60}) : Same /\ Reads(Line(Pre(Kind(a)) \o "_print", <<a>>))

GenSetUi ==
  \E a \in One(Mats) : \E x \in One({0, 1, RandomElement(0..(Card(a)-1))}) :
    SetUi(a, x) /\ Did(Line(Pre(Kind(a)) \o "_set_ui", <<a, x>>), a, {}, TRUE)

GenCopy ==
  \E a \in One(Mats) : \E t \in One(Targets(Kind(a), heap[a].f, Rows(a), Cols(a), {a})) :
    Copy(t[1], t[2], a) /\ Did(Line(Pre(Kind(a)) \o "_copy" \o Bang(t[1]), <<t[2], a>>), t[2], {a}, TRUE)

GenConvert ==
  \E a \in One(Mats) : \E t \in One(Targets(IF Kind(a) = "E" THEN "S" ELSE "E", heap[a].f, Rows(a), Cols(a), {a})) :
    IF Kind(a) = "E" THEN ToSlice(t[1], t[2], a) /\ Did(Line("mzed_slice" \o Bang(t[1]), <<t[2], a>>), t[2], {a}, TRUE)
                     ELSE ToPacked(t[1], t[2], a) /\ Did(Line("mzed_cling" \o Bang(t[1]), <<t[2], a>>), t[2], {a}, TRUE)

\* assembling works on whole matrices only
Whole(ts) == {t \in ts : t[1] = 1 \/ IsRoot(t[2])}

GenSubMatrix ==
  \E a \in One(Roots) : \E r0 \in One(0..(Rows(a)-1)) : \E r1 \in One((r0+1)..Rows(a)) :
  \E c0 \in One(0..(Cols(a)-1)) : \E c1 \in One((c0+1)..Cols(a)) :
  \E t \in One(Whole(Targets(Kind(a), heap[a].f, r1-r0, c1-c0, {a}))) :
    SubMatrix(t[1], t[2], a, r0, c0, r1, c1)
    /\ Did(Line(Pre(Kind(a)) \o "_submatrix" \o Bang(t[1]), <<t[2], a, r0, c0, r1, c1>>), t[2], {a}, TRUE)

GenConcat ==
  \E a \in One(Roots) :
  \E b \in One({x \in Roots : Kind(x) = Kind(a) /\ heap[x].f = heap[a].f /\ Rows(x) = Rows(a) /\ Rows(a) * (Cols(a) + Cols(x)) <= 900}) :
  \E t \in One(Whole(Targets(Kind(a), heap[a].f, Rows(a), Cols(a)+Cols(b), {a, b}))) :
    Concat(t[1], t[2], a, b) /\ Did(Line(Pre(Kind(a)) \o "_concat" \o Bang(t[1]), <<t[2], a, b>>), t[2], {a, b}, TRUE)

GenStack ==
  \E a \in One(Roots) :
  \E b \in One({x \in Roots : Kind(x) = Kind(a) /\ heap[x].f = heap[a].f /\ Cols(x) = Cols(a) /\ (Rows(a) + Rows(x)) * Cols(a) <= 900}) :
  \E t \in One(Whole(Targets(Kind(a), heap[a].f, Rows(a)+Rows(b), Cols(a), {a, b}))) :
    Stack(t[1], t[2], a, b) /\ Did(Line(Pre(Kind(a)) \o "_stack" \o Bang(t[1]), <<t[2], a, b>>), t[2], {a, b}, TRUE)

GenCmp ==
  \E a \in One(Mats) : \E b \in One({x \in Mats : Kind(x) = Kind(a) /\ SameShape(x, a)}) : \E r \in 0..1 :
    Cmp(a, b, r) /\ Reads(Line(Pre(Kind(a)) \o "_cmp", <<a, b>>))
GenIsZero == \E a \in One(Mats) : \E r \in 0..1 : IsZero(a, r) /\ Reads(Line(Pre(Kind(a)) \o "_is_zero", <<a>>))
GenFirstZeroRow ==
  \E a \in One({x \in Roots : Kind(x) = "E" /\ x \notin opq /\ IsREF(V(x), Rows(x), Cols(x))}) : \E r \in 0..Rows(a) :
    FirstZeroRow(a, r) /\ Reads(Line("mzed_first_zero_row", <<a>>))

---------------------------------------------------------------------------
(* Rows, columns, permutations                                             *)

GenRow ==
  \E a \in One(Mats) : \E i \in One(0..(Rows(a)-1)) : \E j \in One(0..(Rows(a)-1)) :
  \E c \in One({0, RandomElement(0..(Cols(a)-1))}) : \E x \in One(0..(Card(a)-1)) : \E w \in One(1..6) :
    LET k == Kind(a)
        n == Pre(k)
    IN  CASE w = 1 -> RowSwap(a, i, j) /\ Did(Line(n \o "_row_swap", <<a, i, j>>), a, {}, FALSE)
          [] w = 2 -> RescaleRow(a, i, c, x) /\ Did(Line(n \o "_rescale_row", <<a, i, c, x>>), a, {}, FALSE)
          [] w = 3 -> i # j /\ AddMultipleOfRow(a, j, a, i, 1, 0) /\ Did(Line(n \o "_row_add", <<a, i, j>>), a, {}, FALSE)
          [] w = 4 -> ColSwap(a, c, j % Cols(a)) /\ Did(Line(n \o "_col_swap", <<a, c, j % Cols(a)>>), a, {}, FALSE)
          [] w = 5 -> ColSwapRows(a, c, Cols(a)-1, i, Rows(a)) /\ Did(Line(n \o "_col_swap_in_rows", <<a, c, Cols(a)-1, i, Rows(a)>>), a, {}, FALSE)
          [] OTHER -> k = "E" /\ i # j /\ AddMultipleOfRow(a, i, a, j, x, c)
                      /\ Did(Line("mzed_add_multiple_of_row", <<a, i, a, j, x, c>>), a, {}, FALSE)

GenRow2 ==      \* rows of two matrices
  \E a \in One(Mats) : \E b \in One({x \in Mats : Kind(x) = Kind(a) /\ heap[x].f = heap[a].f /\ Cols(x) = Cols(a) /\ Apart(x, a)}) :
  \E i \in One(0..(Rows(a)-1)) : \E j \in One(0..(Rows(b)-1)) :
  \E c \in One({0, RandomElement(0..(Cols(a)-1))}) : \E x \in One(0..(Card(a)-1)) : \E w \in One(1..3) :
    CASE w = 1 -> CopyRow(a, i, b, j) /\ Did(Line(Pre(Kind(a)) \o "_copy_row", <<a, i, b, j>>), a, {b}, FALSE)
      [] w = 2 -> Kind(a) = "E" /\ AddMultipleOfRow(a, i, b, j, x, c) /\ Did(Line("mzed_add_multiple_of_row", <<a, i, b, j, x, c>>), a, {b}, FALSE)
      [] OTHER -> Kind(a) = "E" /\ AddMultipleOfRow(a, i, b, j, 1, c) /\ Did(Line("mzed_add_row", <<a, i, b, j, c>>), a, {b}, FALSE)

GenPermute ==
  \E a \in One(Mats) : \E w \in One(1..5) :
  \E p \in One({x \in Perms : Cols(x) = IF w <= 2 THEN Rows(a) ELSE Cols(a)}) :
    LET n == Pre(Kind(a))
    IN  CASE w = 1 -> ApplyPLeft(a, p) /\ Did(Line(n \o "_apply_p_left", <<a, p>>), a, {a, p}, FALSE)
          [] w = 2 -> ApplyPLeftTrans(a, p) /\ Did(Line(n \o "_apply_p_left_trans", <<a, p>>), a, {a, p}, FALSE)
          [] w = 3 -> ApplyPRight(a, p) /\ Did(Line(n \o "_apply_p_right", <<a, p>>), a, {a, p}, FALSE)
          [] w = 4 -> ApplyPRightTrans(a, p) /\ Did(Line(n \o "_apply_p_right_trans", <<a, p>>), a, {a, p}, FALSE)
          [] OTHER -> Kind(a) = "S" /\ ApplyPRightTransTri(a, p) /\ Did(Line("mzd_slice_apply_p_right_trans_tri", <<a, p>>), a, {a, p}, FALSE)

---------------------------------------------------------------------------
(* Sums, multiples, products                                               *)

GenAdd ==
  \E a \in One(Mats) : \E b \in One(Like(Kind(a), heap[a].f, Rows(a), Cols(a))) :
  \E t \in One(Targets(Kind(a), heap[a].f, Rows(a), Cols(a), {a, b}) \cup {<<0, a>>}) :
  \E nm \in One({Pre(Kind(a)) \o "_add", Pre(Kind(a)) \o "_sub"}) :
    /\ a = b \/ Apart(a, b)
    /\ Add(t[1], t[2], a, b) /\ Did(Line(nm \o Bang(t[1]), <<t[2], a, b>>), t[2], {a, b}, TRUE)

GenScale ==
  \E a \in One(Mats) : \E x \in One({0, 1, RandomElement(0..(Card(a)-1)), RandomElement(0..(Card(a)-1))}) :
  \E t \in One(Targets(Kind(a), heap[a].f, Rows(a), Cols(a), {a})) :
    Scale(t[1], t[2], x, a) /\ Did(Line(Pre(Kind(a)) \o "_mul_scalar" \o Bang(t[1]), <<t[2], x, a>>), t[2], {a}, TRUE)

GenAddScaled ==
  \E a \in One(OfKind("S")) : \E x \in One(0..(Card(a)-1)) :
  \E c \in One({y \in Like("S", heap[a].f, Rows(a), Cols(a)) : Apart(y, a)}) :
    AddScaled(c, x, a) /\ Did(Line("mzd_slice_addmul_scalar", <<c, x, a>>), c, {a, c}, FALSE)

\* the names of the products, with a further argument (-1: none)
MulNames(k) ==
  IF k = "E" THEN {<<"mzed_mul", -1>>, <<"mzed_mul_naive", -1>>, <<"mzed_mul_newton_john", -1>>, <<"mzed_mul_karatsuba", -1>>,
                   <<"mzed_mul_blm", -1>>, <<"mzed_mul_strassen", 64>>, <<"mzed_mul_strassen", 0>>}
  ELSE {<<"mzd_slice_mul", -1>>, <<"mzd_slice_mul_karatsuba", -1>>, <<"mzd_slice_mul_blm", 0>>}
AddMulNames(k) ==
  IF k = "E" THEN {<<"mzed_addmul", -1>>, <<"mzed_addmul_naive", -1>>, <<"mzed_addmul_newton_john", -1>>, <<"mzed_addmul_karatsuba", -1>>,
                   <<"mzed_addmul_blm", -1>>, <<"mzed_addmul_strassen", 64>>, <<"mzed_addmul_strassen", 0>>}
  ELSE {<<"mzd_slice_addmul", -1>>, <<"mzd_slice_addmul_karatsuba", -1>>, <<"mzd_slice_addmul_blm", 0>>}
More(x) == IF x = -1 THEN <<>> ELSE <<x>>

Factors(a) == {x \in Mats : Kind(x) = Kind(a) /\ heap[x].f = heap[a].f /\ Rows(x) = Cols(a) /\ Rows(a) * Cols(x) <= 700}

GenMul ==
  \E a \in One({x \in Mats : Factors(x) # {}}) : \E b \in One(Factors(a)) : \E nm \in One(MulNames(Kind(a))) :
  \E t \in One(Targets(Kind(a), heap[a].f, Rows(a), Cols(b), {a, b})) :
    Mul(t[1], t[2], a, b) /\ Did(Line(nm[1] \o Bang(t[1]), <<t[2], a, b>> \o More(nm[2])), t[2], {a, b}, TRUE)

GenAddMul ==
  \E a \in One({x \in Mats : \E b \in Factors(x) : Like(Kind(x), heap[x].f, Rows(x), Cols(b)) # {}}) :
  \E b \in One({x \in Factors(a) : Like(Kind(a), heap[a].f, Rows(a), Cols(x)) # {}}) : \E nm \in One(AddMulNames(Kind(a))) :
  \E c \in One({y \in Like(Kind(a), heap[a].f, Rows(a), Cols(b)) : Apart(y, a) /\ Apart(y, b)}) :
    AddMul(c, a, b) /\ Did(Line(nm[1], <<c, a, b>> \o More(nm[2])), c, {a, b, c}, FALSE)

---------------------------------------------------------------------------
(* Elimination                                                             *)

EchNames(k) == IF k = "E" THEN {"mzed_echelonize", "mzed_echelonize_naive", "mzed_echelonize_newton_john", "mzed_echelonize_ple"}
               ELSE {"mzd_slice_echelonize"}

\* (known finding kf3: block-recursive decomposition of wide windows)
Blockable(o) == Kind(o) = "E" \/ IsRoot(o) \/ Cols(o) <= 64

GenEchelonize ==
  \E a \in One({x \in Mats : Blockable(x)}) : \E full \in One({0, 1}) : \E nm \in One(EchNames(Kind(a))) :
    LET res == RREF(Field(a), V(a), Rows(a), Cols(a))
    IN  /\ heap' = Write(heap, a, res[1])
        /\ Echelonize(a, full, res[2])
        /\ log' = Append(log, Line(nm, <<a, full>>))
        /\ opq' = IF full = 1 THEN opq ELSE opq \cup {Root(heap, a)}
        /\ nzd' = {x \in nzd : Apart(x, a)}
        /\ UNCHANGED cnt

\* a PLE decomposition, by elimination column by column; the state is
\* [A, P, Q, r]; L is kept below and on, E right of the pivots
PleStep(p, st, c, m, n) ==
  LET A == st.A
      r == st.r
      cand == {i \in (r+1)..m : A[i][c] # 0}
  IN  IF cand = {} THEN st
      ELSE LET i0  == Min(cand)
               S   == Swap(A, r+1, i0)
               inv == FInv(p, S[r+1][c])
               E   == [j \in 1..n |-> FMul(p, inv, S[r+1][j])]
           IN  [A |-> [i \in 1..m |-> [j \in 1..n |->
                        IF j = r+1 /\ i >= r+1 THEN S[i][c]                  \* L
                        ELSE IF i = r+1 /\ j > c THEN E[j]
                        ELSE IF i > r+1 /\ j > c THEN S[i][j] ^^ FMul(p, S[i][c], E[j])
                        ELSE IF i >= r+1 /\ j = c THEN 0
                        ELSE S[i][j]]],
                P |-> [st.P EXCEPT ![r+1] = i0 - 1],
                Q |-> [st.Q EXCEPT ![r+1] = c - 1],
                r |-> r + 1]
PleOf(p, A, m, n) ==
  FoldLeft(LAMBDA st, c : PleStep(p, st, c, m, n),
           [A |-> A, P |-> [i \in 1..m |-> i-1], Q |-> [i \in 1..n |-> i-1], r |-> 0], Upto(n))

PleNames(k) == IF k = "E" THEN {"mzed_ple_naive", "mzed_ple_newton_john", "mzed_ple"} ELSE {"mzd_slice_ple"}

GenPle ==
  \E a \in One({x \in Mats : Blockable(x)}) : \E nm \in One(PleNames(Kind(a))) :
  \E pp \in One({x \in Perms : Cols(x) = Rows(a)}) : \E qq \in One({x \in Perms : Cols(x) = Cols(a) /\ x # pp}) :
    LET d == PleOf(Field(a), V(a), Rows(a), Cols(a))
    IN  /\ heap' = Write(Write(Write(heap, a, d.A), pp, <<d.P>>), qq, <<d.Q>>)
        /\ Ple(a, pp, qq, d.r)
        /\ log' = Append(log, Line(nm, <<a, pp, qq>>))
        /\ opq' = opq \cup {Root(heap, a), pp, qq}
        /\ nzd' = {x \in nzd : Apart(x, a)} \cup (IF d.r = Rows(a) /\ d.r = Cols(a) THEN {a} ELSE {})
        /\ UNCHANGED cnt

\* the columns of E moved to the front make PLUQ of PLE
PluqOf(p, A, m, n) ==
  LET d == PleOf(p, A, m, n)
      U == TriFwd(d.A, m, SubSeq(d.Q, 1, d.r), n)
  IN  [d EXCEPT !.A = U]

GenPluq ==
  \E a \in One({x \in Mats : Kind(x) = "S" /\ Blockable(x)}) :
  \E pp \in One({x \in Perms : Cols(x) = Rows(a)}) : \E qq \in One({x \in Perms : Cols(x) = Cols(a) /\ x # pp}) :
    LET d == PluqOf(Field(a), V(a), Rows(a), Cols(a))
    IN  /\ heap' = Write(Write(Write(heap, a, d.A), pp, <<d.P>>), qq, <<d.Q>>)
        /\ Pluq(a, pp, qq, d.r)
        /\ log' = Append(log, Line("mzd_slice_pluq", <<a, pp, qq>>))
        /\ opq' = opq \cup {Root(heap, a), pp, qq}
        /\ nzd' = {x \in nzd : Apart(x, a)} \cup (IF d.r = Rows(a) /\ d.r = Cols(a) THEN {a} ELSE {})
        /\ UNCHANGED cnt

\* solution of T X = B by elimination
Solve(p, T, B, n, k) ==
  LET R == RREF(p, [i \in 1..n |-> T[i] \o B[i]], n, n + k)[1]
  IN  Block(R, 0, n, n, k)

DiagOK(o) == \A i \in 1..Rows(o) : V(o)[i][i] # 0
Systems == {o \in Mats : Rows(o) = Cols(o) /\ Rows(o) <= 70 /\ (Known(o) \/ o \in nzd) /\ DiagOK(o)}
GenTrsm ==
  \E t \in One(Systems) : \E b \in One({x \in Mats : Kind(x) = Kind(t) /\ heap[x].f = heap[t].f /\ Rows(x) = Rows(t) /\ Apart(x, t)}) :
  \E u \in One({"upper", "lower"}) : \E suf \in One({"", "_naive", "_newton_john"}) :
    LET n == Rows(t)
        T == IF u = "upper" THEN UpperOf(V(t), n) ELSE LowerOf(V(t), n)
    IN  /\ heap' = Write(heap, b, Solve(Field(t), T, V(b), n, Cols(b)))
        /\ (IF u = "upper" THEN TrsmUpper(t, b) ELSE TrsmLower(t, b))
        /\ Did(Line(Pre(Kind(t)) \o "_trsm_" \o u \o "_left" \o suf, <<t, b>>), b, {t, b}, FALSE)

GenInvert ==
  \E a \in One({x \in OfKind("E") : Known(x) /\ Rows(x) = Cols(x) /\ Invertible(x)}) :
  \E t \in One(Targets("E", heap[a].f, Rows(a), Cols(a), {a})) :
    LET n == Rows(a)
    IN  /\ Deliver(t[1], t[2], a, n, n, Solve(Field(a), V(a), DiagMat(1, n, n), n, n))
        /\ Invert(t[1], t[2], a)
        /\ Did(Line("mzed_invert_newton_john" \o Bang(t[1]), <<t[2], a>>), t[2], {a}, TRUE)

---------------------------------------------------------------------------
(* Polynomials                                                             *)

GenPolyMul ==
  \E a \in One(Polys) : \E b \in One({x \in Polys : Rows(x) = Cols(a) /\ Rows(a) * Cols(x) < 300}) :
  \E c \in One({y \in Polys : y # a /\ y # b /\ Rows(y) = Rows(a) /\ Cols(y) = Cols(b) /\ heap[y].d = heap[a].d + heap[b].d - 1}) :
  \E nm \in One({"naive", "crt", "ext1"} \cup (IF heap[a].d = heap[b].d THEN {"karatsuba"} ELSE {})) :
    PolyAddMul(0, c, a, b) /\ Did(Line("mzd_poly_addmul_" \o nm, <<c, a, b>>), c, {a, b, c}, FALSE)

GenPolyTarget ==        \* a target for the product of two polynomials
  /\ Cardinality(Polys) < 7
  /\ \E a \in One(Polys) : \E b \in One({x \in Polys : Rows(x) = Cols(a) /\ Rows(a) * Cols(x) < 300 /\ heap[x].d + heap[a].d <= 17}) :
       NewPoly(New, heap[a].d + heap[b].d - 2, Rows(a), Cols(b))
       /\ Did(Line("mzd_poly_init", <<New, heap[a].d + heap[b].d - 2, Rows(a), Cols(b)>>), New, {}, TRUE)

GenPolyOther ==
  \E a \in One(Polys) : \E w \in One(1..3) :
    CASE w = 1 -> \E b \in One({x \in Polys : Rows(x) = Rows(a) /\ Cols(x) = Cols(a) /\ heap[x].d = heap[a].d}) :
                  \E c \in One({x \in Polys : Rows(x) = Rows(a) /\ Cols(x) = Cols(a) /\ heap[x].d = heap[a].d}) :
                    PolyAdd(c, a, b) /\ Did(Line("mzd_poly_add", <<c, a, b>>), c, {a, b}, TRUE)
      [] w = 2 -> \E d \in One(1..16) : PolyAdaptDepth(a, d) /\ Did(Line("mzd_poly_adapt_depth", <<a, d>>), a, {}, FALSE)
      [] OTHER -> \E b \in One({x \in Polys : Rows(x) = Rows(a) /\ Cols(x) = Cols(a)}) : \E r \in 0..1 :
                    PolyCmp(a, b, r) /\ Reads(Line("mzd_poly_cmp", <<a, b>>))

---------------------------------------------------------------------------
(* Newton-John tables                                                      *)

Tabs == {o \in DOMAIN heap : heap[o].k = "J"}
\* the column the table's row starts with, -1 when it is the table of a zero row
FirstCol(t) == LET r == heap[t].v[2] IN IF \A j \in 1..Len(r) : r[j] = 0 THEN -1 ELSE Min({j \in 1..Len(r) : r[j] # 0}) - 1

GenTable ==
  \E a \in One({x \in OfKind("E") : Card(x) * Cols(x) < 1200}) :
  \E i \in One(0..(Rows(a)-1)) : \E c \in One(0..(Cols(a)-1)) : \E d \in One({0, c}) :
  \E t \in LET old == {y \in Tabs : heap[y].f = heap[a].f /\ Cols(y) = Cols(a)}
            IN  IF old # {} /\ RandomElement(1..4) > 1 THEN {<<0, RandomElement(old)>>}
                ELSE IF Cardinality(Tabs) < 4 /\ Cardinality(DOMAIN heap) < 18 THEN {<<1, New>>} ELSE {} :
    LET row == V(a)[i+1]
        q == [x \in 1..Card(a) |-> [j \in 1..Cols(a) |-> IF j > d THEN FMul(Field(a), x-1, row[j]) ELSE 0]]
    IN  /\ FillTable(t[1], t[2], a, i, d, q)
        /\ Did(Line("njt_make" \o Bang(t[1]), <<t[2], a, i, d>>), t[2], {a}, TRUE)

GenUseTables ==
  \E t \in One({x \in Tabs : x \notin opq /\ FirstCol(x) >= 0}) :
  \E a \in One({x \in OfKind("E") : heap[x].f = heap[t].f /\ Cols(x) = Cols(t)}) :
  \E st \in One({x \in {FirstCol(t), FirstCol(t) - 1, FirstCol(t) - 2} : x >= 0}) :
    LET more == {x \in Tabs : x \notin opq /\ heap[x].f = heap[t].f /\ Cols(x) = Cols(t) /\ FirstCol(x) >= st /\ FirstCol(x) <= st + 5}
    IN  \E x \in One(more) : \E y \in One(more) :
        \E ts \in One({z \in {<<t>>, <<t, x>>, <<x, t, y>>, <<x, y, x, t>>} :
                       Len(z) = 1 \/ (IsRoot(a) /\ st + Len(z) <= Cols(a))}) :
        \E lo \in One(0..(Rows(a)-1)) : \E hi \in One(lo..Rows(a)) :
          /\ UseTables(a, lo, hi, st, ts)
          /\ Did(Line("njt_process", <<a, lo, hi, st>> \o ts), a, {a, t, x, y}, FALSE)

---------------------------------------------------------------------------
GInit == heap = <<>> /\ flds = <<>> /\ log = <<>> /\ cnt = 0 /\ opq = {} /\ nzd = {}

Menu == 1..63
Do(w) ==
  CASE w \in 1..3 -> GenFillZero
    [] w = 4 -> GenFill
    [] w = 5 -> GenFillPerm
    [] w = 6 -> GenFillPoly
    [] w = 7 -> GenPerm
    [] w = 8 -> GenPoly
    [] w \in 9..10 -> GenElem
    [] w = 11 -> GenReadAll
    [] w = 12 -> GenPrint
    [] w = 13 -> GenSetUi
    [] w = 14 -> GenCopy
    [] w \in 15..16 -> GenConvert
    [] w = 17 -> GenSubMatrix
    [] w = 18 -> GenConcat
    [] w = 19 -> GenStack
    [] w = 20 -> GenCmp
    [] w = 21 -> GenIsZero
    [] w = 22 -> GenFirstZeroRow
    [] w \in 23..24 -> GenRow
    [] w = 25 -> GenRow2
    [] w = 26 -> GenPermute
    [] w = 27 -> GenAdd
    [] w = 28 -> GenScale
    [] w = 29 -> GenAddScaled
    [] w \in 30..32 -> GenMul
    [] w \in 33..35 -> GenAddMul
    [] w = 36 -> GenEchelonize
    [] w = 37 -> GenPle
    [] w = 38 -> GenPluq
    [] w = 39 -> GenTrsm
    [] w = 40 -> GenInvert
    [] w = 41 -> GenPolyMul
    [] w = 42 -> GenPolyTarget
    [] w = 43 -> GenPolyOther
    [] w \in 44..46 -> GenPerm
    [] w \in 47..48 -> GenPermute
    [] w \in 49..51 -> GenPle
    [] w = 52 -> GenEchelonize
    [] w \in 53..54 -> GenTrsm
    [] w = 55 -> GenPolyMul
    [] w = 56 -> GenAudit
    [] w \in 57..58 -> GenTable
    [] w \in 59..62 -> GenUseTables
    [] OTHER -> GenWindow

Manage(w) ==
  CASE w \in 1..5 -> GenMatrix
    [] w = 6 -> GenField
    [] w = 7 -> GenWindow
    [] w = 8 -> Cardinality(DOMAIN heap) > 8 /\ GenFree
    [] OTHER -> GenFieldFree

GNext ==
  /\ Len(log) < Steps
  /\ \/ \E w \in One(Menu) : Do(w)
     \/ \E w \in One(Menu) : Do(w)
     \/ \E w \in One(Menu) : Do(w)
     \/ \E w \in One(1..9) : Manage(w)
     \/ DOMAIN flds = {} /\ GenField
     \/ Cardinality(DOMAIN heap) > 17 /\ GenFree
     \/ flds # <<>> /\ Cardinality(Mats) < 4 /\ GenMatrix
     \/ Mats # {} /\ \E w \in One({4, 9, 15, 27, 28, 30, 33}) : Do(w)       \* always possible

GSpec == GInit /\ [][GNext]_gvars

---------------------------------------------------------------------------
\* written out when a history is complete
Emit == Len(log) = Steps => PrintT(<<"HIST", log>>)
=============================================================================
