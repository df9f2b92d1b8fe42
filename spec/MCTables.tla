------------------------------ MODULE MCTables -------------------------------
(***************************************************************************)
(* Newton-John tables, as the library makes and uses them.                 *)
(*                                                                         *)
(* A matrix a and two tables that stay.  Entries of a change; a table is   *)
(* made again for some row and column, over whatever it held before, the   *)
(* way the library does it: the multiples by 1, x, x^2, ... of the row in  *)
(* a helper, the table's rows one from the other along a Gray code, word   *)
(* by word from the word of the start column on, and only the K words in   *)
(* front of it cleared.  Rows are processed with one or both tables, word  *)
(* by word from the word of the start column on.                           *)
(*                                                                         *)
(* Every reachable state is visited.  Each step made this way has to be    *)
(* the step of M4rie with the same name (FillTable, UseTables), whatever   *)
(* the tables were used for before; and in every state the elimination     *)
(* with tables of rows that have units in the pivot columns clears these   *)
(* columns, keeps the row space, and may be done jointly.                  *)
(***************************************************************************)
EXTENDS M4rie
CONSTANT Jobs           \* <<Pol, M, N, W, K>>
VARIABLES
  job,
  at,       \* where each table was made, -1: never
  act       \* the last step: <<name, arguments>>
tvars == <<heap, flds, job, at, act>>

Pol == job[1]           \* the field
M == job[2]             \* rows and columns
N == job[3]
W == job[4]             \* entries in a word
K == job[5]             \* words cleared in front of the start (7 in the library); 0: no tables, elimination only
QuickJobs == {<<3, 2, 3, 1, 1>>, <<3, 2, 3, 2, 1>>, <<3, 1, 4, 2, 1>>, <<7, 1, 2, 1, 1>>, <<3, 3, 3, 1, 0>>, <<7, 3, 2, 1, 0>>}
FullJobs == QuickJobs \cup {<<7, 2, 2, 1, 1>>, <<3, 3, 4, 1, 0>>, <<3, 4, 3, 1, 0>>, <<11, 3, 2, 1, 0>>, <<3, 1, 5, 2, 1>>, <<7, 1, 3, 1, 1>>, <<11, 1, 2, 1, 1>>}

Fd == 1
A == 2
T1 == 3
T2 == 4
E == Deg(Pol)
Q == 2^E
Zero(k) == [i \in 1..k |-> [j \in 1..N |-> 0]]

TInit ==
  /\ job \in Jobs
  /\ flds = (Fd :> Pol)
  /\ heap = (A :> Obj("E", Fd, M, N, 0, Zero(M))) @@ (T1 :> Obj("J", Fd, Q, N, 0, Zero(Q))) @@ (T2 :> Obj("J", Fd, Q, N, 0, Zero(Q)))
  /\ at = (T1 :> -1) @@ (T2 :> -1)
  /\ act = <<"init">>

---------------------------------------------------------------------------
(* the algorithms; columns j are 1-based, start columns c 0-based          *)

Word(c) == c \div W                              \* the word of column c
InWord(j) == (j - 1) \div W

Gray(i) == i ^^ (i \div 2)
RECURSIVE Twos(_)
Twos(i) == IF i % 2 = 1 THEN 0 ELSE 1 + Twos(i \div 2)

\* the rows of the table in the order of the Gray code; the element x is in row L[x]
Made(old, row, c) ==
  LET help == [k \in 0..(E-1) |-> [j \in 1..N |-> IF j > c THEN FMul(Pol, 2^k, row[j]) ELSE 0]]
      next(t, i) ==                              \* row i from row i-1
        [t EXCEPT ![i+1] = [j \in 1..N |->
           IF InWord(j) >= Word(c) THEN t[i][j] ^^ help[Twos(i)][j]
           ELSE IF InWord(j) >= Word(c) - K THEN 0 ELSE @[j]]]
  IN  FoldLeft(next, old, Upto(Q-1))
L == [x \in 0..(Q-1) |-> CHOOSE i \in 0..(Q-1) : Gray(i) = x]
\* the stored rows and the value of a table
Stored(t) == [i \in 1..Q |-> heap[t].v[Gray(i-1) + 1]]
ValueOf(s) == [x \in 1..Q |-> s[L[x-1] + 1]]

\* the multipliers are read first, then whole words added
Processed(row, c, ts) ==
  LET x == [k \in 1..Len(ts) |-> row[c + k]]
  IN  [j \in 1..N |-> IF InWord(j) >= Word(c)
                      THEN FoldLeft(LAMBDA s, k : s ^^ heap[ts[k]].v[x[k] + 1][j], row[j], Upto(Len(ts)))
                      ELSE row[j]]

---------------------------------------------------------------------------
Change(i, j, x) == WriteElem(A, i, j, x) /\ act' = <<"write">> /\ UNCHANGED <<at, job>>

Make(t, i, c) ==
  /\ K > 0
  /\ heap' = [heap EXCEPT ![t].v = ValueOf(Made(Stored(t), V(A)[i+1], c))]
  /\ at' = [at EXCEPT ![t] = c] /\ act' = <<"make", t, i, c>> /\ UNCHANGED <<flds, job>>

\* a table may be used from a column whose word is not too far in front of its own;
\* what is between that column and the start of the table must be empty, so the
\* table starts there or further right
Usable(c, ts) == \A k \in 1..Len(ts) : at[ts[k]] >= c /\ Word(at[ts[k]]) - K <= Word(c)
Use(lo, hi, c, ts) ==
  /\ c + Len(ts) <= N /\ Usable(c, ts)
  /\ heap' = [heap EXCEPT ![A].v = [i \in 1..M |-> IF i > lo /\ i <= hi THEN Processed(V(A)[i], c, ts) ELSE V(A)[i]]]
  /\ act' = <<"use", lo, hi, c, ts>> /\ UNCHANGED <<flds, job, at>>

Orders == {<<T1>>, <<T2>>, <<T1, T2>>, <<T2, T1>>, <<T1, T1>>}
TNext ==
  \/ \E i \in 0..(M-1) : \E j \in 0..(N-1) : \E x \in Elems(Pol) : Change(i, j, x)
  \/ \E t \in {T1, T2} : \E i \in 0..(M-1) : \E c \in 0..(N-1) : Make(t, i, c)
  \/ \E lo \in 0..(M-1) : \E hi \in (lo+1)..M : \E c \in 0..(N-1) : \E ts \in Orders : Use(lo, hi, c, ts)

TView == <<heap, job, at>>
TSpec == TInit /\ [][TNext]_tvars

---------------------------------------------------------------------------
\* what the library does is what M4rie says
FollowsStep ==
  CASE act'[1] = "make" -> TableFrom(Pol, V(A)[act'[3]+1], act'[4], heap'[act'[2]].v, (W * K) - 1)
    [] act'[1] = "use" -> LET c == act'[4]
                              ts == act'[5]
                          IN  /\ UseTables(A, act'[2], act'[3], c, ts)
                              \* nothing left from former rows: what is added are multiples of rows from their start on
                              /\ \A k \in 1..Len(ts) : \A x \in 1..Q : \A j \in (c+1)..at[ts[k]] : heap[ts[k]].v[x][j] = 0
    [] OTHER -> TRUE
Follows == [][FollowsStep]_tvars

\* Gray codes go through all elements, one bit at a time
CodeLaw == /\ {Gray(i) : i \in 0..(Q-1)} = 0..(Q-1)
           /\ \A i \in 1..(Q-1) : Gray(i) = Gray(i-1) ^^ (2^Twos(i))
\* a table is linear in the element in every column, stale ones included
Linear == \A t \in {T1, T2} : \A x, y \in 0..(Q-1) : \A j \in 1..N :
            heap[t].v[(x ^^ y) + 1][j] = heap[t].v[x+1][j] ^^ heap[t].v[y+1][j]

Times(row) == [x \in 1..Q |-> [j \in 1..N |-> FMul(Pol, x-1, row[j])]]
Sub(row, B, i, c) ==       \* row, less the multiple of row i of B that its entry in column c asks for
  [j \in 1..N |-> row[j] ^^ FMul(Pol, row[c], B[i][j])]
Rest(B, S) == [i \in 1..M |-> IF i \in S THEN B[i] ELSE Zero(1)[1]]
Eliminates == at = (T1 :> -1) @@ (T2 :> -1) =>          \* a alone matters
  LET B == V(A)
      R0 == RREF(Pol, B, M, N)
  IN  \A i \in 1..M : \A c \in 1..N :
        B[i][c] = 1 =>
          LET C == [k \in 1..M |-> IF k = i THEN B[i] ELSE Sub(B[k], B, i, c)]
          IN  /\ \A k \in 1..M : k # i => C[k][c] = 0
              /\ RREF(Pol, C, M, N) = R0
              \* a second row with a unit in the next column and none in this one: both at once, or one after the other
              /\ \A l \in 1..M : (l # i /\ c < N /\ B[l][c] = 0 /\ B[l][c+1] = 1 /\ B[i][c+1] = 0) =>
                   LET both == [k \in 1..M |-> IF k \in {i, l} THEN B[k]
                                               ELSE [j \in 1..N |-> (B[k][j] ^^ FMul(Pol, B[k][c], B[i][j])) ^^ FMul(Pol, B[k][c+1], B[l][j])]]
                       one == [k \in 1..M |-> IF k \in {i, l} THEN B[k] ELSE Sub(C[k], B, l, c+1)]
                   IN  /\ both = one
                       /\ \A k \in 1..M : k \notin {i, l} => both[k][c] = 0 /\ both[k][c+1] = 0
                       /\ RREF(Pol, both, M, N) = R0

TTypeOK == TypeOK /\ flds = (Fd :> Pol) /\ (act = <<"init">> => CodeLaw)
=============================================================================
