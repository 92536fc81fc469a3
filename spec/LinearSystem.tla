---------------------------- MODULE LinearSystem ----------------------------
(***************************************************************************)
(* Linear systems A x = b in compressed rows.  A pattern is a list of      *)
(* rows, each the increasing list of its columns; the values follow the    *)
(* pattern.  A system is a value: copies share nothing, and only the named *)
(* entry changes.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Handles, Execs, Patterns, Vals, Scheds, Acts, Limit, Pick(_)
VARIABLES sys,  \* handle -> None or [x |-> executor, p |-> pattern, a |-> values row by row, b |-> right-hand side]
          out, op
vars == <<sys, out, op>>
None == [x |-> "", p |-> <<>>, a |-> <<>>, b |-> <<>>]
Unit == [t |-> "unit", v |-> ""]
R(e) == [e |-> e, v |-> Unit]
Label(n, h, a, s, e) == op' = [n |-> n, h |-> h, k |-> "", a |-> a, s |-> s, r |-> R(e)]
Is(h) == sys[h] # None
Init == sys = [h \in Handles |-> None] /\ out = <<>> /\ op = [n |-> "init"]
RECURSIVE Starts(_, _)
Starts(p, at) == IF p = <<>> THEN <<at>> ELSE <<at>> \o Starts(Tail(p), at + Len(Head(p)))
Rows(p) == Len(p)
Ptr == [p \in Patterns |-> Starts(p, 0)]
Nnz(p) == Ptr[p][Len(p) + 1]
\* position (from 1) of entry (i, j), counting rows and columns from 0
Has(p, i, j) == i < Len(p) /\ \E k \in DOMAIN p[i + 1] : p[i + 1][k] = j
Pos(p, i, j) == Ptr[p][i + 1] + (CHOOSE k \in DOMAIN p[i + 1] : p[i + 1][k] = j)
Flat(p) == [e \in 1..Nnz(p) |-> LET i == CHOOSE r \in 1..Len(p) : Ptr[p][r] < e /\ e <= Ptr[p][r + 1] IN p[i][e - Ptr[p][i]]]
Gen(n, c) == [e \in 1..n |-> ((e * c) % 7) - 3 + c]

New(h, x, p, c, s) ==
  /\ p # <<>>
  /\ sys' = [sys EXCEPT ![h] = [x |-> x, p |-> p, a |-> Gen(Nnz(p), c), b |-> Gen(Rows(p), c + 1)]]
  /\ out' = <<>> /\ Label("new", h, <<x, Flat(p), Ptr[p], Gen(Nnz(p), c), Gen(Rows(p), c + 1)>>, s, "")
\* parts on different executors, or a right-hand side of another length, are no system
Mismatch(x, y, z, p, d, s) ==
  /\ x # y \/ x # z \/ d # 0
  /\ UNCHANGED sys /\ out' = <<>>
  /\ Label("mismatch", "", <<x, y, z, Flat(p), Ptr[p], Rows(p) + d>>, s, "stopped")
Empty(h, x, s) == sys' = [sys EXCEPT ![h] = [x |-> x, p |-> <<>>, a |-> <<>>, b |-> <<>>]] /\ out' = <<>> /\ Label("empty", h, <<x>>, s, "")
\* how: "copy", "host" or "to" (matrix copied to executor x)
Copy(g, h, how, x, s) ==
  /\ Is(h) /\ g # h
  /\ sys' = [sys EXCEPT ![g] = [sys[h] EXCEPT !.x = CASE how = "copy" -> @ [] how = "host" -> "serial" [] how = "to" -> x]]
  /\ out' = <<>> /\ Label("copy", g, <<h, how, x>>, s, "")
Write(h, i, j, c, how, s) ==
  /\ Is(h) /\ i < Rows(sys[h].p)
  /\ out' = <<>>
  /\ IF Has(sys[h].p, i, j)
     THEN LET e == Pos(sys[h].p, i, j)
              v == IF how = "set" \/ how = "offset" THEN c ELSE sys[h].a[e] + c
          IN /\ v <= Limit /\ v >= -Limit /\ sys' = [sys EXCEPT ![h].a[e] = v]
             /\ Label("write", h, <<i, j, c, how, e - 1>>, s, "")
     ELSE how = "set" /\ UNCHANGED sys /\ Label("write", h, <<i, j, c, how, 0>>, s, "stopped")
Rhs(h, i, c, s) == /\ Is(h) /\ i < Rows(sys[h].p) /\ out' = <<>>
                   /\ sys' = [sys EXCEPT ![h].b[i + 1] = c] /\ Label("rhs", h, <<i, c>>, s, "")
Reset(h, s) == /\ Is(h) /\ Rows(sys[h].p) > 0 /\ out' = <<>>
               /\ sys' = [sys EXCEPT ![h].a = [e \in DOMAIN @ |-> 0], ![h].b = [e \in DOMAIN @ |-> 0]]
               /\ Label("reset", h, <<>>, s, "")
\* A x - b
Residual(h, c, s) ==
  /\ Is(h) /\ Rows(sys[h].p) > 0
  /\ LET p == sys[h].p
         x == Gen(Rows(p), c)
         row(i) == MapThenSumSet(LAMBDA k : sys[h].a[Ptr[p][i] + k] * x[p[i][k] + 1], DOMAIN p[i]) - sys[h].b[i]
     IN out' = [i \in 1..Rows(p) |-> row(i)] /\ Label("residual", h, <<x>>, s, "")
  /\ UNCHANGED sys

Next == \E s \in Pick(Scheds), h \in Pick(Handles), x \in Pick(Execs) :
  \/ \E p \in Pick(Patterns), c \in Pick(Vals) : New(h, x, p, c, s)
  \/ "odd" \in Acts /\ Empty(h, x, s)
  \/ \E g \in Pick(Handles), how \in Pick({"copy", "host", "to"}) : Copy(g, h, how, x, s)
  \/ \E i \in Pick(0..5), j \in Pick(0..5), c \in Pick(Vals), how \in Pick({"set", "add", "offset"}) : Write(h, i, j, c, how, s)
  \/ \E i \in Pick(0..5), c \in Pick(Vals) : Rhs(h, i, c, s)
  \/ Reset(h, s)
  \/ "spmv" \in Acts /\ \E c \in Pick(Vals) : Residual(h, c, s)
  \/ "odd" \in Acts /\ \E y \in Pick(Execs), z \in Pick(Execs), p \in Pick(Patterns), d \in Pick({0, 1}) : Mismatch(x, y, z, p, d, s)
Spec == Init /\ [][Next]_vars
St == <<sys>>
Obs == [sys |-> [h \in Handles |-> IF Is(h) THEN [x |-> sys[h].x, col |-> Flat(sys[h].p), ptr |-> IF sys[h].p = <<>> THEN <<>> ELSE Ptr[sys[h].p],
                                                  a |-> sys[h].a, b |-> sys[h].b, n |-> <<Rows(sys[h].p), Len(sys[h].a)>>]
                                    ELSE [x |-> ""]],
        out |-> out]
TypeOK == \A h \in Handles : Is(h) => Len(sys[h].a) = Nnz(sys[h].p) /\ Len(sys[h].b) = Rows(sys[h].p)
PatternsSorted == \A p \in Patterns : \A i \in DOMAIN p : \A k \in 1..(Len(p[i]) - 1) : p[i][k] < p[i][k + 1]
Local == [][ \A h \in Handles : h # op'.h => sys'[h] = sys[h] ]_vars
\* a write changes the named entry only
OneEntry == [][ op'.n = "write" => Cardinality({e \in DOMAIN sys[op'.h].a : sys[op'.h].a[e] # sys'[op'.h].a[e]}) <= 1
                                   /\ sys'[op'.h].b = sys[op'.h].b ]_vars
\* the residual is linear in the system: nothing is left of it after a reset
ZeroAfterReset == [][ op.n = "reset" /\ op'.n = "residual" /\ op'.h = op.h => \A i \in DOMAIN out' : out'[i] = 0 ]_vars
=============================================================================
