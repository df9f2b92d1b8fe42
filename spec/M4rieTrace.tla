----------------------------- MODULE M4rieTrace ----------------------------
(***************************************************************************)
(* Is what the implementation did a behaviour of M4rie?                    *)
(*                                                                         *)
(* The input is a file of recorded histories, one event per public call,   *)
(* each with the arguments, the return value and the complete new value of *)
(* every object the call changed or created.  An event is accepted when    *)
(* the action of M4rie that describes the called function, with these      *)
(* arguments and this return value, allows exactly the recorded step.      *)
(* A change to any object that the action does not allow (a neighbour of   *)
(* a window, an operand, an unrelated matrix) rejects the event, since     *)
(* heap' is the whole recorded heap.                                       *)
(*                                                                         *)
(* The histories in one file are independent; each starts from the empty   *)
(* heap.  After a rejection the rest of that history is skipped, so one    *)
(* run reports every history that is not a behaviour.                      *)
(***************************************************************************)
EXTENDS M4rie, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES l,        \* number of events consumed
          skip,     \* history being skipped after a rejection (0: none)
          nrej      \* rejected events

tvars == <<heap, flds, l, skip, nrej>>

TInit == heap = <<>> /\ flds = <<>> /\ l = 0 /\ skip = 0 /\ nrej = 0

Has(ev, fld) == fld \in DOMAIN ev

\* the recorded object as an object of M4rie
Seen(h, o) ==
  IF o.par = 0
  THEN [k |-> o.k, f |-> o.f, par |-> 0, r0 |-> 0, c0 |-> 0, m |-> o.m, n |-> o.n,
        pad |-> o.pad, d |-> o.d, v |-> o.v]
  ELSE [k |-> o.k, f |-> o.f, par |-> IF o.par \in DOMAIN h THEN Root(h, o.par) ELSE 0,
        r0 |-> o.r0 + h[o.par].r0, c0 |-> o.c0 + h[o.par].c0,
        m |-> o.m, n |-> o.n, pad |-> 0, d |-> o.d, v |-> <<>>]

\* the heap after the recorded step
Observed(h, ev) ==
  LET base == IF ev.op = "free" THEN [x \in DOMAIN h \ {ev.a[1]} |-> h[x]] ELSE h
      ids  == {ev.o[i].id : i \in DOMAIN ev.o}
      rec(id) == ev.o[CHOOSE i \in DOMAIN ev.o : ev.o[i].id = id]
  IN  [x \in DOMAIN base \cup ids |-> IF x \in ids THEN Seen(h, rec(x)) ELSE base[x]]

ObservedFlds(f, ev) ==
  IF ev.op = "field" THEN (ev.a[1] :> ev.poly) @@ f
  ELSE IF ev.op = "field_free" THEN [x \in DOMAIN f \ {ev.a[1]} |-> f[x]] ELSE f

\* headers agree with the contents, new windows show the rectangle they name,
\* recorded values are over the right ring
RecordOK(h, ev) ==
  \A i \in DOMAIN ev.o :
    LET o == ev.o[i]
    IN  /\ o.am = o.m /\ o.an = o.n
        /\ o.par # 0 => o.v = Val(h, o.id)
        /\ ObjOK(h, o.id)

---------------------------------------------------------------------------
Products == {"mzed_mul", "_mzed_mul", "mzed_mul_naive", "mzed_mul_newton_john", "mzed_mul_strassen", "_mzed_mul_strassen",
             "mzed_mul_karatsuba", "mzed_mul_blm",
             "mzd_slice_mul", "mzd_slice_mul_karatsuba", "mzd_slice_mul_blm"}
\* functions that accumulate; with a new target they start from zero
Accumulations == {"mzed_addmul", "_mzed_addmul", "mzed_addmul_naive", "_mzed_mul_naive", "mzed_addmul_newton_john",
                  "_mzed_mul_newton_john", "_mzed_mul_newton_john0",
                  "mzed_addmul_strassen", "_mzed_addmul_strassen", "mzed_addmul_karatsuba", "_mzed_addmul_karatsuba",
                  "mzed_addmul_blm", "_mzed_addmul_blm",
                  "mzd_slice_addmul", "mzd_slice_addmul_karatsuba", "_mzd_slice_addmul_karatsuba", "_mzd_slice_addmul_naive",
                  "mzd_slice_addmul_blm"}
Sums == {"mzed_add", "_mzed_add", "mzed_sub", "mzd_slice_add", "_mzd_slice_add", "mzd_slice_sub"}

\* calls whose operands are checked
CheckedSums == {"mzed_add", "mzed_sub", "mzd_slice_add", "mzd_slice_sub"}
CheckedProducts == {"mzed_mul", "mzed_mul_naive", "mzed_mul_newton_john", "mzed_mul_strassen", "mzed_mul_karatsuba", "mzed_mul_blm",
                    "mzd_slice_mul", "mzd_slice_mul_karatsuba", "mzd_slice_mul_blm",
                    "mzed_addmul", "mzed_addmul_naive", "mzed_addmul_newton_john", "mzed_addmul_strassen", "mzed_addmul_karatsuba",
                    "mzed_addmul_blm", "mzd_slice_addmul", "mzd_slice_addmul_karatsuba", "mzd_slice_addmul_blm"}

\* does the call violate a precondition that the function checks?
MustRefuse(ev) ==
  LET a == ev.a
      nw == ev.nw
  IN  CASE ev.op \in CheckedSums -> ~DimsMatchAdd(nw, a[1], a[2], a[3])
        [] ev.op \in CheckedProducts -> ~DimsMatchMul(nw, a[1], a[2], a[3])
        [] ev.op = "mzed_copy" -> ~DimsMatchCopy(nw, a[1], a[2])
        \* slice by slice: a larger target is taken, though what it holds then is nowhere said
        [] ev.op = "mzd_slice_copy" -> nw = 0 /\ (Rows(a[1]) < Rows(a[2]) \/ Cols(a[1]) < Cols(a[2]))
        [] ev.op = "mzed_mul_scalar" -> ~DimsMatchCopy(nw, a[1], a[3])
        [] ev.op \in {"mzed_concat", "mzd_slice_concat"} -> ~DimsMatchConcat(nw, a[1], a[2], a[3])
        [] ev.op \in {"mzed_stack", "mzd_slice_stack"} -> ~DimsMatchStack(nw, a[1], a[2], a[3])
        [] ev.op = "mzed_invert_newton_john" -> ~Invertible(a[2])
        [] OTHER -> FALSE

\* printed form: one line per row, elements in hexadecimal, right-justified
HexDigit(d) == CASE d < 10 -> ToString(d) [] d = 10 -> "a" [] d = 11 -> "b" [] d = 12 -> "c" [] d = 13 -> "d" [] d = 14 -> "e" [] d = 15 -> "f"
Hex(x, k) == \* in k characters
  FoldLeft(LAMBDA s, i : (IF x < 16^(i-1) /\ i > 1 THEN " " ELSE HexDigit((x \div (16^(i-1))) % 16)) \o s, "", Upto(k))
HexWidth(deg) == IF deg <= 4 THEN 1 ELSE IF deg <= 8 THEN 2 ELSE 4
RowText(row, k) ==
  "[" \o FoldLeft(LAMBDA s, j : (IF j = 1 THEN "" ELSE s \o " ") \o Hex(row[j], k), "", Upto(Len(row))) \o "]"
TextOK(ev) ==
  LET a == ev.a[1]
  IN  ev.txt = [i \in 1..Rows(a) |-> RowText(V(a)[i], HexWidth(Deg(Field(a))))]

\* GF(2)[x] as sets of exponents, for operands beyond 31 bits
XMulSet(A, B) == {k \in 0..63 : Cardinality({i \in A : (k - i) \in B}) % 2 = 1}
XDeg(A) == CHOOSE i \in A : \A j \in A : j <= i

FieldEvent(ev) ==
  LET a == ev.a
      p == flds[a[1]]
      q == ev.q
  IN CASE ev.op = "gf_row" ->
            /\ ev.q = [i \in DOMAIN ev.q |-> FMul(p, a[2], a[3]+i-1)]
            /\ ev.q2 = ev.q /\ ev.q3 = ev.q
            /\ Same
       [] ev.op = "gf_pairs" ->
            /\ \A i \in DOMAIN ev.q : /\ ev.q[i][3] = FMul(p, ev.q[i][1], ev.q[i][2])
                                      /\ ev.q[i][4] = ev.q[i][3] /\ ev.q[i][5] = ev.q[i][3]
            /\ Same
       [] ev.op = "gf_inv" ->
            /\ \A i \in DOMAIN ev.q : /\ ev.q[i] \in 1..(2^Deg(p)-1)
                                      /\ FMul(p, a[2]+i-1, ev.q[i]) = 1
            /\ ev.q2 = ev.q
            /\ Same
       [] ev.op = "gf_info" ->
            /\ ev.poly = p /\ ev.deg = Deg(p)
            /\ ev.w \in {2, 4, 8, 16} /\ ev.w >= ev.deg /\ (ev.w > 2 => ev.w < 2 * ev.deg \/ ev.deg = 2)
            /\ Same
       [] ev.op = "gf_t16" ->
            \* a 16-bit word holds 16/w field elements; multiplication acts on each
            /\ \A i \in DOMAIN ev.q :
                 LET w == IF Deg(p) <= 2 THEN 2 ELSE IF Deg(p) <= 4 THEN 4 ELSE IF Deg(p) <= 8 THEN 8 ELSE 16
                     part(x, k) == (x \div (2^(k*w))) % (2^w)
                 IN  /\ ev.q[i][2] \in 0..65535
                     /\ \A k \in 0..((16 \div w)-1) :
                          part(ev.q[i][1], k) < 2^Deg(p) => part(ev.q[i][2], k) = FMul(p, a[2], part(ev.q[i][1], k))
            /\ Same

PolyArith(ev) ==
  CASE ev.op = "gf2x_mul" -> Range(ev.C) = XMulSet(Range(ev.A), Range(ev.B)) /\ Same
    [] ev.op = "gf2x_deg" -> (IF ev.A = <<>> THEN ev.r = 0 ELSE ev.r = XDeg(Range(ev.A))) /\ Same
    [] ev.op = "gf2x_divmod" ->
         LET A == Range(ev.A)
             B == Range(ev.B)
             Q == Range(ev.C)
             R == Range(ev.D)
         IN  /\ SymDiff(XMulSet(B, Q), R) = A
             /\ R = {} \/ XDeg(R) < XDeg(B)
             /\ ev.E = ev.C /\ ev.G = ev.D
             /\ Same
    [] ev.op = "gf2x_invmod" ->
         \* A * C - 1 is a multiple of B: the division of it by B leaves nothing
         LET A == Range(ev.A)
             B == Range(ev.B)
             C == Range(ev.C)
             prod == XMulSet(A, C)
             step(X, k) == IF (63 - k + 1) \in X /\ (63 - k + 1) >= XDeg(B)
                           THEN SymDiff(X, {b + (63 - k + 1) - XDeg(B) : b \in B}) ELSE X
         IN  /\ FoldLeft(step, prod, Upto(64)) = {0}
             /\ C # {} /\ XDeg(C) < XDeg(B)
             /\ Same
    [] ev.op = "irreducibles" ->
         \* the list is exactly the irreducible polynomials of that degree, each once
         LET lst == Tail(ev.q)
             d == ev.a[1]
         IN  /\ ev.q[1] = Len(lst)
             /\ Cardinality(Range(lst)) = Len(lst)
             /\ \A i \in DOMAIN lst : lst[i] >= 2^d /\ lst[i] < 2^(d+1) /\ Irreducible(lst[i])
             /\ Len(lst) = IrrCount(d)
             /\ Same

---------------------------------------------------------------------------
\* The action of M4rie for each interface function
Action(ev) ==
  LET op == ev.op
      nw == ev.nw
      a == ev.a
      r == ev.r
  IN
  CASE op = "field" -> NewField(a[1], ev.poly) /\ ev.deg = Deg(ev.poly)
    [] op = "field_free" -> FreeField(a[1])
    [] op = "mzed_init" -> NewMatrix("E", a[1], a[2], a[3], a[4])
    [] op = "mzd_slice_init" -> NewMatrix("S", a[1], a[2], a[3], a[4])
    [] op = "mzp_init" -> NewPerm(a[1], a[2])
    [] op = "mzd_poly_init" -> NewPoly(a[1], a[2], a[3], a[4])
    [] op \in {"mzed_init_window", "mzd_slice_init_window"} -> NewWindow(a[1], a[2], a[3], a[4], a[5], a[6])
    [] op = "audit" -> Account(ev.mzd, ev.mzp, ev.blk)
    [] op = "free" -> IF a[1] \in DOMAIN heap THEN Free(a[1]) ELSE Same
    \* the environment writes input data into one object
    [] op \in {"fill", "form", "set", "poke", "pivots"} -> Put(a[1], Val(heap', a[1]))
    [] op \in {"mzed_read_elem", "mzd_slice_read_elem"} -> ReadElem(a[1], a[2], a[3], r)
    [] op \in {"mzed_read_all", "mzd_slice_read_all"} -> ReadAll(a[1], ev.q)
    [] op \in {"mzed_write_elem", "mzd_slice_write_elem"} -> WriteElem(a[1], a[2], a[3], a[4])
    [] op \in {"mzed_add_elem", "mzd_slice_add_elem"} -> AddElem(a[1], a[2], a[3], a[4])
    [] op \in {"mzed_set_ui", "mzd_slice_set_ui"} -> SetUi(a[1], a[2])
    [] op \in {"mzed_randomize", "mzd_slice_randomize", "mzd_poly_randomize"} ->
         IF Kind(a[1]) \in {"Y", "L"}
         THEN /\ heap[a[1]].d \in 1..30 => Random(Val(heap', a[1]), Rows(a[1]), Cols(a[1]), heap[a[1]].d)
              /\ Put(a[1], Val(heap', a[1]))
         ELSE Randomize(a[1])
    [] op \in {"mzed_copy", "mzd_slice_copy"} -> r = 0 /\ Copy(nw, a[1], a[2])
    [] op \in {"mzed_submatrix", "mzd_slice_submatrix"} -> r = 0 /\ SubMatrix(nw, a[1], a[2], a[3], a[4], a[5], a[6])
    [] op \in {"mzed_concat", "mzd_slice_concat"} -> r = 0 /\ Concat(nw, a[1], a[2], a[3])
    [] op \in {"mzed_stack", "mzd_slice_stack"} -> r = 0 /\ Stack(nw, a[1], a[2], a[3])
    [] op \in {"mzed_cmp", "mzd_slice_cmp"} -> Cmp(a[1], a[2], r)
    [] op \in {"mzed_is_zero", "mzd_slice_is_zero"} -> IsZero(a[1], r)
    [] op = "mzed_first_zero_row" -> FirstZeroRow(a[1], r)
    [] op \in {"mzed_print", "mzd_slice_print"} -> TextOK(ev) /\ Same
    [] op = "mzed_add_multiple_of_row" -> AddMultipleOfRow(a[1], a[2], a[3], a[4], a[5], a[6])
    [] op = "mzed_add_row" -> AddMultipleOfRow(a[1], a[2], a[3], a[4], 1, a[5])
    [] op \in {"mzed_row_add", "mzd_slice_row_add"} -> AddMultipleOfRow(a[1], a[3], a[1], a[2], 1, 0)
    [] op \in {"mzed_rescale_row", "mzd_slice_rescale_row"} -> RescaleRow(a[1], a[2], a[3], a[4])
    [] op \in {"mzed_row_swap", "mzd_slice_row_swap"} -> RowSwap(a[1], a[2], a[3])
    [] op \in {"mzed_copy_row", "mzd_slice_copy_row"} -> CopyRow(a[1], a[2], a[3], a[4])
    [] op \in {"mzed_col_swap", "mzd_slice_col_swap"} -> ColSwap(a[1], a[2], a[3])
    [] op \in {"mzed_col_swap_in_rows", "mzd_slice_col_swap_in_rows"} -> ColSwapRows(a[1], a[2], a[3], a[4], a[5])
    [] op \in {"mzed_apply_p_left", "mzd_slice_apply_p_left"} -> ApplyPLeft(a[1], a[2])
    [] op \in {"mzed_apply_p_left_trans", "mzd_slice_apply_p_left_trans"} -> ApplyPLeftTrans(a[1], a[2])
    [] op \in {"mzed_apply_p_right", "mzd_slice_apply_p_right"} -> ApplyPRight(a[1], a[2])
    [] op \in {"mzed_apply_p_right_trans", "mzd_slice_apply_p_right_trans"} -> ApplyPRightTrans(a[1], a[2])
    [] op = "mzd_slice_apply_p_right_trans_tri" -> ApplyPRightTransTri(a[1], a[2])
    [] op \in Sums -> r = 0 /\ Add(nw, a[1], a[2], a[3])
    [] op \in {"mzed_mul_scalar", "mzd_slice_mul_scalar"} -> r = 0 /\ Scale(nw, a[1], a[2], a[3])
    [] op = "mzd_slice_addmul_scalar" -> r = 0 /\ AddScaled(a[1], a[2], a[3])
    [] op \in Products -> r = 0 /\ Mul(nw, a[1], a[2], a[3])
    [] op \in Accumulations -> r = 0 /\ (IF nw = 1 THEN Mul(nw, a[1], a[2], a[3]) ELSE AddMul(a[1], a[2], a[3]))
    [] op = "_mzd_slice_mul_blm" -> r = 0 /\ (IF nw = 1 THEN Mul(nw, a[1], a[2], a[3]) ELSE AddMul(a[1], a[2], a[3]))
    [] op = "_mzed_mul_init1" -> r = 0 /\ Deliver(nw, a[1], a[2], Rows(a[2]), Cols(a[3]), ZeroMat(Rows(a[2]), Cols(a[3])))
    [] op = "_mzed_mul_init0" -> r = 0 /\ (IF nw = 1 THEN Deliver(nw, a[1], a[2], Rows(a[2]), Cols(a[3]), ZeroMat(Rows(a[2]), Cols(a[3]))) ELSE Same)
    [] op = "mzed_slice" -> r = 0 /\ ToSlice(nw, a[1], a[2])
    [] op = "mzed_cling" -> r = 0 /\ ToPacked(nw, a[1], a[2])
    [] op \in {"mzed_echelonize", "mzed_echelonize_naive", "mzed_echelonize_newton_john", "mzed_echelonize_ple", "mzd_slice_echelonize"} ->
         Echelonize(a[1], a[2], r)
    [] op \in {"mzed_ple_naive", "mzed_ple_newton_john", "mzed_ple", "_mzed_ple", "mzd_slice_ple", "_mzd_slice_ple"} -> Ple(a[1], a[2], a[3], r)
    [] op \in {"mzd_slice_pluq", "_mzd_slice_pluq"} -> Pluq(a[1], a[2], a[3], r)
    [] op \in {"mzed_trsm_upper_left", "mzd_slice_trsm_upper_left", "mzed_trsm_upper_left_naive", "mzd_slice_trsm_upper_left_naive",
               "mzed_trsm_upper_left_newton_john", "mzd_slice_trsm_upper_left_newton_john",
               "_mzed_trsm_upper_left", "_mzd_slice_trsm_upper_left"} -> TrsmUpper(a[1], a[2])
    [] op \in {"mzed_trsm_lower_left", "mzd_slice_trsm_lower_left", "mzed_trsm_lower_left_naive", "mzd_slice_trsm_lower_left_naive",
               "mzed_trsm_lower_left_newton_john", "mzd_slice_trsm_lower_left_newton_john",
               "_mzed_trsm_lower_left", "_mzd_slice_trsm_lower_left"} -> TrsmLower(a[1], a[2])
    [] op = "mzed_invert_newton_john" -> r = 0 /\ Invert(nw, a[1], a[2])
    [] op = "blm_init_crt" -> NewBlm(a[1], a[2], a[3], a[4], ev.F, ev.G, ev.H)
    [] op \in {"mzd_poly_addmul_naive", "mzd_poly_addmul_karatsuba", "mzd_poly_addmul_blm", "mzd_poly_addmul_crt", "mzd_poly_addmul_ext1"} ->
         r = 0 /\ PolyAddMul(nw, a[1], a[2], a[3])
    [] op = "_mzd_poly_add" -> r = 0 /\ PolyAddAt(a[1], a[2], a[3], a[4])
    [] op = "mzd_poly_add" -> r = 0 /\ PolyAdd(a[1], a[2], a[3])
    [] op = "mzd_slice_adapt_depth" -> r = 0 /\ SliceAdaptDepth(a[1], a[2])
    [] op = "mzd_poly_adapt_depth" -> r = 0 /\ PolyAdaptDepth(a[1], a[2])
    [] op = "mzd_poly_cmp" -> PolyCmp(a[1], a[2], r)
    [] op = "mzed_make_table" -> MakeTable(a[1], a[2], a[3], ev.q) /\ (Len(a) > 3 => ev.r = 0)
    [] op = "njt_mzed_init" -> NewTable(a[1], a[2], a[3])
    [] op = "njt_make" -> r = 0 /\ FillTable(nw, a[1], a[2], a[3], a[4], Val(heap', a[1]))
    [] op = "njt_process" -> UseTables(a[1], a[2], a[3], a[4], SubSeq(a, 5, Len(a)))
    [] op \in {"mzed_process_rows", "mzed_process_rows_again"} -> ProcessRows(a[1], a[2], a[3], a[4], SubSeq(a, 5, Len(a)))
    [] op \in {"gf_row", "gf_pairs", "gf_inv", "gf_info", "gf_t16"} -> FieldEvent(ev)
    [] op \in {"gf2x_mul", "gf2x_deg", "gf2x_divmod", "gf2x_invmod", "irreducibles"} -> PolyArith(ev)
    [] OTHER -> FALSE /\ Same

\* the call returned: a checked precondition held, the record is well formed, the step is allowed
Returned(ev) == ev.x = "ok" /\ ~MustRefuse(ev) /\ RecordOK(heap', ev) /\ Action(ev)
\* the call ended the program with a diagnostic: only where that is specified
Refused(ev) == ev.x = "die" /\ MustRefuse(ev) /\ Same

Accept(ev) == IF ev.x = "ok" THEN Returned(ev) ELSE Refused(ev)

---------------------------------------------------------------------------
NewHistory(ev) == l = 0 \/ Trace[l].h # ev.h

\* between histories the heap is emptied (a separate step, so that Action sees the empty heap)
Reset(ev) ==
  /\ heap # <<>> \/ flds # <<>> \/ skip # 0
  /\ NewHistory(ev)
  /\ heap' = <<>> /\ flds' = <<>> /\ skip' = 0
  /\ UNCHANGED <<l, nrej>>

Fits(ev) == NewHistory(ev) => heap = <<>> /\ flds = <<>> /\ skip = 0

Consume(ev) ==
  /\ Fits(ev)
  /\ l' = l + 1
  /\ IF skip = ev.h
     THEN UNCHANGED <<heap, flds, skip, nrej>>
     ELSE /\ heap' = Observed(heap, ev)
          /\ flds' = ObservedFlds(flds, ev)
          /\ IF Accept(ev)
             THEN UNCHANGED <<skip, nrej>>
             ELSE /\ skip' = ev.h
                  /\ nrej' = nrej + 1
                  /\ PrintT("REJECT {\"h\":" \o ToString(ev.h) \o ",\"s\":" \o ToString(ev.s) \o ",\"op\":\"" \o ev.op
                            \o "\",\"x\":\"" \o ev.x \o "\"}")

TNext == l < N /\ LET ev == Trace[l+1] IN Reset(ev) \/ Consume(ev)

TSpec == TInit /\ [][TNext]_tvars

Consumed == PrintT("CONSUMED " \o ToString(TLCGet("level") ) \o " of " \o ToString(N))
Progress == l = N => PrintT("DONE " \o ToString(l) \o " rejected " \o ToString(nrej))
=============================================================================
