---------------------------- MODULE FieldHistory ----------------------------
(***************************************************************************)
(* Fields registered in the collections of databases, and their history in *)
(* time.  A registered field belongs to its collection: every reference to *)
(* it is the same object for as long as the collection exists.  The field  *)
(* at the old time is made when it is first asked for, as a copy of the    *)
(* field as it is then, and is the same object ever after; it is a         *)
(* registered field itself, so that histories form chains.                 *)
(*                                                                         *)
(* Documents are numbered in the order they are made, names are            *)
(* <<base, number of appended "_0">>, and the value k stands for the cell  *)
(* values 10 k + i and the boundary values 100 k + j.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS Execs, Meshes, Cols, Slots, Names, Vals, Times, Scheds, Acts, Limit, Pick(_)
VARIABLES m, docs, olds, slots, ever, op
vars == <<m, docs, olds, slots, ever, op>>
Unset == 1000000 \* no index given
Unit == [t |-> "unit", v |-> ""]
Is(i) == [t |-> "doc", v |-> ToString(i)]
Flag(b) == [t |-> "bool", v |-> IF b THEN "true" ELSE "false"]
Label(n, h, k, a, s, e, v) == op' = [n |-> n, h |-> h, k |-> k, a |-> a, s |-> s, r |-> [e |-> e, v |-> v]]
Cells(k) == [i \in 1..Meshes[m].nC |-> 10 * k + i]
Off == Meshes[m].off
Faces(k) == [j \in 1..Off[Len(Off)] |-> 100 * k + j]
Patch(j) == CHOOSE p \in 1..(Len(Off) - 1) : Off[p] < j /\ j <= Off[p + 1]
\* the boundary conditions fix the value c + patch
Fixed(c) == [j \in 1..Off[Len(Off)] |-> c + Patch(j)]
Empty == [of |-> -1, v |-> <<>>, b |-> <<>>, bc |-> 0]
Init == m = 0 /\ docs = <<>> /\ olds = <<>> /\ slots = [x \in Slots |-> Empty] /\ ever = {} /\ op = [n |-> "init"]
New(x, i, s) ==
  /\ m' = i /\ docs' = <<>> /\ olds' = <<>> /\ slots' = [h \in Slots |-> Empty] /\ ever' = {}
  /\ Label("new", "", "", <<x, i>>, s, "", Unit)
Busy == m # 0
D == DOMAIN docs
Doc(c, key, dn, fn, t, v, b, bc) == [c |-> c, key |-> key, dn |-> dn, fn |-> fn, t |-> t, v |-> v, b |-> b, bc |-> bc]
Room == Len(docs) < Limit
N == Len(docs) + 1
\* a new field; t is <<time index, iteration, sub-cycle>>
Register(c, nm, t, k, bc, s) ==
  /\ Busy /\ Room /\ UNCHANGED <<m, olds, slots, ever>>
  /\ docs' = Append(docs, Doc(c, N, <<nm, 0>>, <<nm, 0>>, t, Cells(k), Faces(k), bc))
  /\ Label("register", "", "", <<c, nm, t, k, bc>>, s, "", Is(N))
\* a field made from a registered one or from a copy; indices that are not given are those of the document of the source
\* handles: <<i, "">> is the registered field i, <<0, x>> the field in slot x
Ref(i) == <<i, "">>
Source(h) == IF h[1] > 0 THEN [of |-> h[1], v |-> docs[h[1]].v, b |-> docs[h[1]].b, bc |-> docs[h[1]].bc] ELSE slots[h[2]]
Shown(h) == IF h[1] > 0 THEN ToString(h[1]) ELSE h[2]
Given(t, of) == [x \in 1..3 |-> IF t[x] = Unset /\ of > 0 THEN docs[of].t[x] ELSE t[x]]
From(c, nm, t, h, s) ==
  LET f == Source(h) IN
  /\ Busy /\ Room /\ f.of # -1 /\ UNCHANGED <<m, olds, slots, ever>>
  /\ docs' = Append(docs, Doc(c, N, <<nm, 0>>, <<nm, 0>>, Given(t, f.of), f.v, f.b, f.bc))
  /\ Label("from", Shown(h), "", <<c, nm, t>>, s, "", Is(N))
\* the document of one collection is registered in another of the same database
Share(c, i, s) ==
  /\ Busy /\ Room /\ i \in D /\ docs[i].c # c /\ docs[i].c[1] = c[1] /\ UNCHANGED <<m, olds, slots, ever>>
  /\ IF \E j \in D : docs[j].c = c /\ docs[j].key = docs[i].key
     THEN UNCHANGED docs /\ Label("share", ToString(i), "", <<c>>, s, "out_of_range", Unit)
     ELSE docs' = Append(docs, [docs[i] EXCEPT !.c = c]) /\ Label("share", ToString(i), "", <<c>>, s, "", Is(N))
\* a document whose key is taken is not inserted, and what is there stays
Again(i, how, s) ==
  /\ Busy /\ i \in D /\ UNCHANGED <<m, docs, olds, slots, ever>>
  /\ Label("again", ToString(i), how, <<>>, s, IF how = "register" THEN "out_of_range" ELSE "", IF how = "register" THEN Unit ELSE Flag(FALSE))
\* documents that are not those of fields, and fields read as another type
Bad(why, c, i, s) ==
  /\ Busy /\ UNCHANGED <<m, docs, olds, slots, ever>>
  /\ (why = "type") => i \in D
  /\ Label("bad", IF why = "type" THEN ToString(i) ELSE "", why, <<c>>, s, CASE why = "type" -> "bad_any_cast" [] why = "key" -> "out_of_range" [] OTHER -> "runtime_error", Unit)
(* ---- time ---- *)
OldOf(i) == {o \in DOMAIN olds : olds[o].nx = i}
NextOf(i) == {o \in DOMAIN olds : olds[o].pv = i}
OldTime(h, s) ==
  LET i == Source(h).of IN
  /\ Busy /\ i # -1 /\ UNCHANGED <<m, slots>>
  /\ IF i = 0 THEN UNCHANGED <<docs, olds, ever>> /\ Label("old", Shown(h), "", <<>>, s, "runtime_error", Unit)
     ELSE IF OldOf(i) # {}
     THEN UNCHANGED <<docs, olds, ever>> /\ Label("old", Shown(h), "", <<>>, s, "", Is(olds[CHOOSE o \in OldOf(i) : TRUE].pv))
     ELSE LET d == docs[i] up == NextOf(i) IN
          /\ Room /\ ever' = ever \cup {d.c}
          /\ docs' = Append(docs, Doc(d.c, N, <<d.fn[1], d.fn[2] + 1>>, <<d.fn[1], d.fn[2] + 1>>, [d.t EXCEPT ![1] = @ - 1], d.v, d.b, d.bc))
          /\ olds' = Append(olds, [c |-> d.c, nx |-> i, pv |-> N,
                                   cur |-> IF up = {} THEN i ELSE olds[CHOOSE o \in up : TRUE].cur,
                                   lev |-> IF up = {} THEN 1 ELSE 1 + olds[CHOOSE o \in up : TRUE].lev])
          /\ Label("old", Shown(h), "", <<>>, s, "", Is(N))
\* reading the old time of a constant field makes nothing: what is not there is reported
ReadOld(h, s) ==
  LET i == Source(h).of IN
  /\ Busy /\ i # -1 /\ UNCHANGED <<m, docs, olds, slots, ever>>
  /\ IF i > 0 /\ OldOf(i) # {} THEN Label("read", Shown(h), "", <<>>, s, "", Is(olds[CHOOSE o \in OldOf(i) : TRUE].pv))
     ELSE Label("read", Shown(h), "", <<>>, s, IF i = 0 THEN "runtime_error" ELSE "refused", Unit)
\* a history that is removed starts anew
Forget(c, s) ==
  /\ Busy /\ UNCHANGED <<m, docs, slots>> /\ olds' = SelectSeq(olds, LAMBDA o : o.c # c) /\ ever' = ever \ {c}
  /\ Label("forget", "", "", <<c>>, s, "", Flag(c \in ever))
(* ---- values ---- *)
Write(h, what, k, s) ==
  /\ Busy /\ Source(h).of # -1 /\ UNCHANGED <<m, olds, ever>>
  /\ LET set(f) == CASE what = "cells" -> [f EXCEPT !.v = Cells(k)] [] what = "faces" -> [f EXCEPT !.b = Faces(k)] [] what = "correct" -> [f EXCEPT !.b = Fixed(f.bc)]
     IN IF h[1] > 0 THEN docs' = [docs EXCEPT ![h[1]] = set(@)] /\ UNCHANGED slots ELSE slots' = [slots EXCEPT ![h[2]] = set(@)] /\ UNCHANGED docs
  /\ Label("write", Shown(h), what, <<k>>, s, "", Unit)
Index == [time |-> 1, iteration |-> 2, subCycle |-> 3]
Amend(i, what, k, s) ==
  /\ Busy /\ i \in D /\ UNCHANGED <<m, olds, slots, ever>>
  /\ docs' = IF what = "name" THEN [docs EXCEPT ![i].dn = <<k, 0>>] ELSE [docs EXCEPT ![i].t[Index[what]] = k]
  /\ Label("amend", ToString(i), what, <<k>>, s, "", Unit)
(* ---- copies ---- *)
Copy(x, i, s) ==
  /\ Busy /\ i \in D /\ UNCHANGED <<m, docs, olds, ever>>
  /\ slots' = [slots EXCEPT ![x] = [of |-> i, v |-> docs[i].v, b |-> docs[i].b, bc |-> docs[i].bc]]
  /\ Label("copy", x, "", <<ToString(i)>>, s, "", Unit)
Loose(x, k, bc, s) ==
  /\ Busy /\ UNCHANGED <<m, docs, olds, ever>>
  /\ slots' = [slots EXCEPT ![x] = [of |-> 0, v |-> Cells(k), b |-> Faces(k), bc |-> bc]]
  /\ Label("loose", x, "", <<k, bc>>, s, "", Unit)
(* ---- queries ---- *)
Find(c, what, k, s) ==
  /\ Busy /\ UNCHANGED <<m, docs, olds, slots, ever>>
  /\ LET hits == {i \in D : docs[i].c = c /\ IF what = "name" THEN docs[i].dn = <<k, 0>> ELSE docs[i].t[Index[what]] = k}
     IN Label("find", "", what, <<c, k>>, s, "", [t |-> "docs", v |-> SetToSortSeq(hits, <)])

Sampling == Pick({1, 2}) # {1, 2}
Held == {x \in Slots : slots[x].of # -1}
Now == IF ~Busy THEN {"new"}
       ELSE (IF Room THEN {"register"} ELSE {"new"})
            \cup (IF Room /\ docs # <<>> THEN {"from", "old", "old2"} ELSE {})
            \cup (IF docs # <<>> THEN {"old", "read", "write"} \cup ({"share", "again", "amend", "copy", "find", "bad", "forget"} \cap Acts) ELSE {})
            \cup ({"loose"} \cap Acts) \cup (IF Held # {} THEN {"slot"} ELSE {})
Go(do, s) ==
  \/ do = "new" /\ \E x \in Pick(Execs), i \in Pick(DOMAIN Meshes) : New(x, i, s)
  \/ do = "register" /\ \E c \in Pick(Cols), nm \in Pick(Names), t1 \in Pick(Times), t2 \in Pick(Times), t3 \in Pick(Times), k \in Pick(Vals) : Register(c, nm, <<t1, t2, t3>>, k, k, s)
  \/ do = "from" /\ \E c \in Pick(Cols), nm \in Pick(Names), t1 \in Pick(Times \cup {Unset}), t2 \in Pick(Times \cup {Unset}), t3 \in Pick(Times \cup {Unset}), h \in Pick(D) : From(c, nm, <<t1, t2, t3>>, Ref(h), s)
  \/ do \in {"old", "old2"} /\ \E h \in Pick(D) : OldTime(Ref(h), s)
  \/ do = "read" /\ \E h \in Pick(D) : ReadOld(Ref(h), s)
  \/ do = "write" /\ \E h \in Pick(D), w \in Pick({"cells", "faces", "correct"}), k \in Pick(Vals) : Write(Ref(h), w, k, s)
  \/ do = "share" /\ \E c \in Pick(Cols), i \in Pick(D) : Share(c, i, s)
  \/ do = "again" /\ \E i \in Pick(D), how \in Pick({"register", "insert"}) : Again(i, how, s)
  \/ do = "amend" /\ \E i \in Pick(D), w \in Pick({"time", "iteration", "subCycle"}), k \in Pick(Times) : Amend(i, w, k, s)
  \/ do = "amend" /\ \E i \in Pick(D), nm \in Pick(Names) : Amend(i, "name", nm, s)
  \/ do = "copy" /\ \E x \in Pick(Slots), i \in Pick(D) : Copy(x, i, s)
  \/ do = "loose" /\ \E x \in Pick(Slots), k \in Pick(Vals) : Loose(x, k, k, s)
  \/ do = "find" /\ \E c \in Pick(Cols), w \in Pick({"time", "iteration", "subCycle"}), k \in Pick(Times) : Find(c, w, k, s)
  \/ do = "find" /\ \E c \in Pick(Cols), nm \in Pick(Names) : Find(c, "name", nm, s)
  \/ do = "bad" /\ \E why \in Pick({"type", "key", "document", "register"}), c \in Pick(Cols), i \in Pick(D) : Bad(why, c, i, s)
  \/ do = "forget" /\ \E c \in Pick(Cols) : Forget(c, s)
  \/ do = "slot" /\ \E x \in Pick(Held), what \in Pick({"from", "old", "read", "cells", "faces", "correct"}), k \in Pick(Vals), c \in Pick(Cols), nm \in Pick(Names) :
       CASE what = "from" -> From(c, nm, <<Unset, Unset, k>>, <<0, x>>, s) [] what = "old" -> OldTime(<<0, x>>, s) [] what = "read" -> ReadOld(<<0, x>>, s) [] OTHER -> Write(<<0, x>>, what, k, s)
Next == \E s \in Pick(Scheds), do \in Pick(Now) : Go(do, s) \/ (Sampling /\ Busy /\ Go("write", s)) \/ (Sampling /\ Busy /\ Room /\ Go("register", s)) \/ (Sampling /\ Busy /\ ~Room /\ Go("new", s))
Spec == Init /\ [][Next]_vars
St == <<m, docs, olds, slots, ever>>
Obs == [docs |-> [i \in D |-> [c |-> docs[i].c, key |-> docs[i].key, dn |-> docs[i].dn, fn |-> docs[i].fn, t |-> docs[i].t, v |-> docs[i].v, b |-> docs[i].b, same |-> "",
                               old |-> IF OldOf(i) = {} THEN <<>> ELSE LET o == olds[CHOOSE o \in OldOf(i) : TRUE] IN <<o.pv, o.cur, o.lev>>,
                               nxt |-> IF NextOf(i) = {} THEN <<>> ELSE <<olds[CHOOSE o \in NextOf(i) : TRUE].nx>>]],
        held |-> [x \in Held |-> [of |-> slots[x].of, v |-> slots[x].v, b |-> slots[x].b]]]

(* ---- checked by TLC ---- *)
TypeOK == Busy => /\ \A i \in D : docs[i].key <= i /\ DOMAIN docs[i].v = 1..Meshes[m].nC
                  /\ \A o \in DOMAIN olds : olds[o].nx \in D /\ olds[o].pv \in D /\ olds[o].nx # olds[o].pv
                  /\ \A x \in Held : slots[x].of = 0 \/ slots[x].of \in D
OneOld == \A i \in D : Cardinality(OldOf(i)) <= 1 /\ Cardinality(NextOf(i)) <= 1
\* the level counts the steps back to the current field
Chains == \A o \in DOMAIN olds : LET up == NextOf(olds[o].nx) IN
            IF up = {} THEN olds[o].lev = 1 /\ olds[o].cur = olds[o].nx
            ELSE \A u \in up : olds[u].c = olds[o].c /\ olds[u].pv = olds[o].nx /\ olds[o].lev = olds[u].lev + 1 /\ olds[o].cur = olds[u].cur
SameCollection == \A o \in DOMAIN olds : docs[olds[o].nx].c = olds[o].c /\ docs[olds[o].pv].c = olds[o].c
Keys == \A i, j \in D : docs[i].c = docs[j].c /\ docs[i].key = docs[j].key => i = j
\* reading and searching change nothing; an old time, once made, is only changed through itself
Reads == [][op'.n \in {"read", "find", "again", "bad"} => UNCHANGED <<m, docs, olds, slots, ever>>]_vars
Frozen == [][(op'.n # "new" /\ m' = m) => \A i \in D : docs'[i].v # docs[i].v => op'.n = "write" /\ op'.h = ToString(i)]_vars
=============================================================================
