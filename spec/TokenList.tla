----------------------------- MODULE TokenList -----------------------------
(***************************************************************************)
(* NeoFOAM::TokenList: the token sequence of a scheme entry with a read    *)
(* cursor.  next() reads at the cursor and advances it (also on a const    *)
(* list); nothing else moves the cursor; a copy carries its own cursor.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Handles, Vals, Types, MaxLen, Acts, Pick(_)
VARIABLES tl, op      \* tl: handle -> [d |-> sequence of values, c |-> cursor (0-based)]
vars == <<tl, op>>

Unit == [t |-> "unit", v |-> ""]
Ok == [e |-> "", v |-> Unit]
Val(v) == [e |-> "", v |-> v]
Err(x) == [e |-> x, v |-> Unit]
B(b) == Val([t |-> "bool", v |-> IF b THEN "true" ELSE "false"])
N(n) == Val([t |-> "size_t", v |-> ToString(n)])
Label(n, h, a, r) == op' = [n |-> n, h |-> h, a |-> a, r |-> r]
D(h) == tl[h].d
C(h) == tl[h].c
RemoveAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))   \* i: 0-based

Init == /\ tl = [h \in Handles |-> [d |-> <<>>, c |-> 0]]
        /\ op = [n |-> "init"]

Read(h, i, t) == IF i >= Len(D(h)) THEN Err("out_of_range")
                 ELSE IF D(h)[i + 1].t # t THEN Err("bad_any_cast") ELSE Val(D(h)[i + 1])

Insert(h, v) == /\ Len(D(h)) < MaxLen
                /\ tl' = [tl EXCEPT ![h].d = Append(@, v)]
                /\ Label("insert", h, <<v>>, Ok)
Remove(h, i) == /\ i < Len(D(h))
                /\ tl' = [tl EXCEPT ![h].d = RemoveAt(@, i)]
                /\ Label("remove", h, <<i>>, Ok)
PopFront(h, t) == LET r == Read(h, 0, t) IN
                  /\ tl' = IF r.e = "" THEN [tl EXCEPT ![h].d = Tail(@)] ELSE tl
                  /\ Label("popFront", h, <<t>>, r)
Get(h, i, t, c) == UNCHANGED tl /\ Label("get", h, <<i, t, c>>, Read(h, i, t))
SetAt(h, i, v) == LET r == Read(h, i, v.t) IN      \* list.get<T>(i) = v
                  /\ tl' = IF r.e = "" THEN [tl EXCEPT ![h].d[i + 1] = v] ELSE tl
                  /\ Label("set", h, <<i, v>>, IF r.e = "" THEN Ok ELSE r)
NextTok(h, t, c) == LET r == Read(h, C(h), t) IN
                    /\ tl' = IF r.e = "" THEN [tl EXCEPT ![h].c = @ + 1] ELSE tl
                    /\ Label("next", h, <<t, c>>, r)
Index(h, i) == /\ i < Len(D(h))
               /\ UNCHANGED tl
               /\ Label("index", h, <<i>>, Val(D(h)[i + 1]))
Assign(h, i, v) == /\ i < Len(D(h))                 \* list.tokens()[i] = v / list[i] = v
                   /\ tl' = [tl EXCEPT ![h].d[i + 1] = v]
                   /\ Label("assign", h, <<i, v>>, Ok)
Size(h) == UNCHANGED tl /\ Label("size", h, <<>>, N(Len(D(h))))
IsEmpty(h) == UNCHANGED tl /\ Label("empty", h, <<>>, B(D(h) = <<>>))
Copy(h, g, how) == tl' = [tl EXCEPT ![g] = tl[h]] /\ Label("copy", h, <<g, how>>, Ok)
Ctor(h, s) == tl' = [tl EXCEPT ![h] = [d |-> s, c |-> 0]] /\ Label("ctor", h, s, Ok)
CtorVec(h, g, n) ==          \* TokenList(vector, nextIndex): replay from a given position
  tl' = [tl EXCEPT ![g] = [d |-> D(h), c |-> n]] /\ Label("ctorVec", h, <<g, n>>, Ok)

Next ==
  \E h \in Pick(Handles) :
  \/ "mod" \in Acts /\ \E v \in Pick(Vals) :
       Insert(h, v) \/ \E i \in Pick(0..MaxLen) : SetAt(h, i, v) \/ Assign(h, i, v)
  \/ "mod" \in Acts /\ \E i \in Pick(0..MaxLen) : Remove(h, i)
  \/ \E t \in Pick(Types) :
       \/ PopFront(h, t)
       \/ \E c \in Pick(BOOLEAN) : NextTok(h, t, c) \/ \E i \in Pick(0..(MaxLen + 1)) : Get(h, i, t, c)
  \/ \E i \in Pick(0..MaxLen) : Index(h, i)
  \/ Size(h) \/ IsEmpty(h)
  \/ "copy" \in Acts /\ \E g \in Pick(Handles) :
       \/ \E how \in Pick({"ctor", "assign", "any"}) : Copy(h, g, how)
       \/ \E n \in Pick(0..MaxLen) : CtorVec(h, g, n)
  \/ "ctor" \in Acts /\ \E v \in Pick(Vals), w \in Pick(Vals), u \in Pick(Vals) :
       Ctor(h, <<>>) \/ Ctor(h, <<v, w>>) \/ Ctor(h, <<v, w, u>>)

Spec == Init /\ [][Next]_vars
St == tl
Obs == [h \in Handles |-> D(h)]   \* the cursor shows in what next() delivers

TypeOK == \A h \in Handles : Len(D(h)) <= MaxLen
CursorOnlyByNext == [][ \A h \in Handles : tl'[h].c # tl[h].c =>
                        op'.n \in {"next", "copy", "ctor", "ctorVec"} ]_vars
NextInOrder == [][ op'.n = "next" /\ op'.r.e = "" =>
                   /\ C(op'.h) < Len(D(op'.h))
                   /\ op'.r.v = D(op'.h)[C(op'.h) + 1]
                   /\ tl'[op'.h].c = C(op'.h) + 1 ]_vars
FailureKeeps == [][ op'.r.e # "" => UNCHANGED tl ]_vars
PopIsQueue == [][ op'.n = "popFront" /\ op'.r.e = "" =>
                  D(op'.h) = <<op'.r.v>> \o tl'[op'.h].d ]_vars
=============================================================================
