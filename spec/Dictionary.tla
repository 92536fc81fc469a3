----------------------------- MODULE Dictionary -----------------------------
(***************************************************************************)
(* NeoFOAM::Dictionary: the key -> typed value store behind every          *)
(* configuration, document and solver/scheme set-up of the library.        *)
(*                                                                         *)
(* Abstract state: named dictionary objects ("handles"), each a finite map *)
(* from keys to typed values; a value may itself be a dictionary (a tree). *)
(* References a caller holds to (sub-)dictionaries are state too, because  *)
(* callers keep them across further modifications of the same dictionary.  *)
(* One action per public member function; `op` records the call, its       *)
(* arguments and the result it must deliver (replayed into the code).      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
  Handles,   \* names of dictionary objects
  Refs,      \* names of held references
  Keys,      \* keys used
  Vals,      \* scalar values: records [t |-> type, v |-> literal]
  Types,     \* types requested by typed reads (may include "dict")
  MaxDepth,  \* nesting depth allowed per dictionary object (1 = flat)
  Acts,      \* enabled action groups
  Pick(_)    \* Pick(S): the subset of S offered in one step (S itself when
             \* exhaustive, one random element when simulating)

VARIABLES root, ref, op

vars == <<root, ref, op>>

Empty == <<>>
IsDict(v) == v.t = "dict"
DictV(d) == [t |-> "dict", d |-> d]
NoRef == [h |-> "", p |-> <<"-">>]

Put(d, k, v) == (k :> v) @@ d
Del(d, k) == [x \in DOMAIN d \ {k} |-> d[x]]

RECURSIVE At(_, _)
At(d, p) == IF p = <<>> THEN d ELSE At(d[Head(p)].d, Tail(p))

RECURSIVE SetAt(_, _, _)
SetAt(d, p, nd) ==
  IF p = <<>> THEN nd
  ELSE Put(d, Head(p), DictV(SetAt(d[Head(p)].d, Tail(p), nd)))

RECURSIVE Paths(_)
Paths(d) == {<<>>} \cup UNION { { <<k>> \o q : q \in Paths(d[k].d) }
                                : k \in { x \in DOMAIN d : IsDict(d[x]) } }

RECURSIVE Depth(_)
Depth(d) == IF \A k \in DOMAIN d : ~IsDict(d[k]) THEN 1
            ELSE 1 + CHOOSE m \in 0..10 :
                   /\ \E k \in DOMAIN d : IsDict(d[k]) /\ Depth(d[k].d) = m
                   /\ \A k \in DOMAIN d : IsDict(d[k]) => Depth(d[k].d) <= m

IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

(* References die when the object they designate is destroyed: an entry on  *)
(* their path is overwritten or removed.  Nothing else invalidates them.    *)
KillBelow(h, p, strict) ==
  [ r \in Refs |->
      IF ref[r].h = h /\ IsPrefixOf(p, ref[r].p) /\ (strict => ref[r].p # p)
      THEN NoRef ELSE ref[r] ]

Ok == [e |-> "", v |-> [t |-> "unit", v |-> ""]]
Val(v) == [e |-> "", v |-> v]
Err(x) == [e |-> x, v |-> [t |-> "unit", v |-> ""]]
B(b) == Val([t |-> "bool", v |-> IF b THEN "true" ELSE "false"])

Label(n, h, p, k, args, r) ==
  op' = [n |-> n, h |-> h, p |-> p, k |-> k, a |-> args, r |-> r]

TypeOK ==
  /\ DOMAIN root = Handles
  /\ \A h \in Handles : Depth(root[h]) <= MaxDepth[h]
  /\ \A r \in Refs : ref[r] # NoRef => ref[r].p \in Paths(root[ref[r].h])

Init ==
  /\ root = [h \in Handles |-> Empty]
  /\ ref = [r \in Refs |-> NoRef]
  /\ op = [n |-> "init"]

Fits(h, p, v) == Len(p) + (IF IsDict(v) THEN 1 + Depth(v.d) ELSE 1) <= MaxDepth[h]

WriteAt(h, p, nd) == root' = [root EXCEPT ![h] = SetAt(root[h], p, nd)]

(* ------------------------------ modification --------------------------- *)

InsertVal(h, p, k, v) ==      \* insert(): create or overwrite
  /\ Fits(h, p, v)
  /\ WriteAt(h, p, Put(At(root[h], p), k, v))
  /\ ref' = KillBelow(h, Append(p, k), FALSE)
  /\ Label("insert", h, p, k, <<v>>, Ok)

InsertDict(h, p, k, g) ==     \* insert(k, otherDictionary): stores a deep copy
  LET v == DictV(root[g]) IN
  /\ Fits(h, p, v)
  /\ WriteAt(h, p, Put(At(root[h], p), k, v))
  /\ ref' = KillBelow(h, Append(p, k), FALSE)
  /\ Label("insertDict", h, p, k, <<g>>, Ok)

InsertFrom(h, p, k, g, q, j) ==  \* insert(k, other[j]): copies one entry, also
  LET v == At(root[g], q)[j] IN  \* out of the entry being replaced
  /\ Fits(h, p, v)
  /\ WriteAt(h, p, Put(At(root[h], p), k, v))
  /\ ref' = KillBelow(h, Append(p, k), FALSE)
  /\ Label("insertFrom", h, p, k, <<g, q, j>>, Ok)

Assign(h, p, k, v) ==         \* dict[k] = v : only for existing keys
  IF k \in DOMAIN At(root[h], p)
  THEN /\ Fits(h, p, v)
       /\ WriteAt(h, p, Put(At(root[h], p), k, v))
       /\ ref' = KillBelow(h, Append(p, k), FALSE)
       /\ Label("assign", h, p, k, <<v>>, Ok)
  ELSE /\ UNCHANGED <<root, ref>>
       /\ Label("assign", h, p, k, <<v>>, Err("out_of_range"))

SetTyped(h, p, k, v) ==       \* dict.get<T>(k) = v : in place, same type only
  LET d == At(root[h], p) IN
  IF k \notin DOMAIN d
  THEN /\ UNCHANGED <<root, ref>>
       /\ Label("setTyped", h, p, k, <<v>>, Err("out_of_range"))
  ELSE IF d[k].t # v.t
  THEN /\ UNCHANGED <<root, ref>>
       /\ Label("setTyped", h, p, k, <<v>>, Err("bad_any_cast"))
  ELSE /\ Fits(h, p, v)
       /\ WriteAt(h, p, Put(d, k, v))
       /\ UNCHANGED ref
       /\ Label("setTyped", h, p, k, <<v>>, Ok)

SetSub(h, p, k, g) ==         \* dict.subDict(k) = otherDictionary : in place
  LET d == At(root[h], p) IN
  /\ g # h                    \* (assigning a dictionary into itself is not offered)
  /\ IF k \notin DOMAIN d
     THEN /\ UNCHANGED <<root, ref>>
          /\ Label("setSub", h, p, k, <<g>>, Err("out_of_range"))
     ELSE IF ~IsDict(d[k])
     THEN /\ UNCHANGED <<root, ref>>
          /\ Label("setSub", h, p, k, <<g>>, Err("bad_any_cast"))
     ELSE /\ Fits(h, p, DictV(root[g]))
          /\ WriteAt(h, p, Put(d, k, DictV(root[g])))
          /\ ref' = KillBelow(h, Append(p, k), TRUE)
          /\ Label("setSub", h, p, k, <<g>>, Ok)

Remove(h, p, k) ==            \* remove(): idempotent
  /\ WriteAt(h, p, Del(At(root[h], p), k))
  /\ ref' = KillBelow(h, Append(p, k), FALSE)
  /\ Label("remove", h, p, k, <<>>, Ok)

(* ------------------------------ observation ---------------------------- *)

Get(h, p, k, t, c) ==         \* get<T>(k), c: through a const reference
  LET d == At(root[h], p) IN
  /\ UNCHANGED <<root, ref>>
  /\ Label("get", h, p, k, <<t, c>>,
       IF k \notin DOMAIN d THEN Err("out_of_range")
       ELSE IF d[k].t # t THEN Err("bad_any_cast")
       ELSE Val(d[k]))

Index(h, p, k, c) ==          \* operator[]
  LET d == At(root[h], p) IN
  /\ UNCHANGED <<root, ref>>
  /\ Label("index", h, p, k, <<c>>,
       IF k \notin DOMAIN d THEN Err("out_of_range") ELSE Val(d[k]))

Sub(h, p, k, c) ==            \* subDict(k)
  LET d == At(root[h], p) IN
  /\ UNCHANGED <<root, ref>>
  /\ Label("sub", h, p, k, <<c>>,
       IF k \notin DOMAIN d THEN Err("out_of_range")
       ELSE IF ~IsDict(d[k]) THEN Err("bad_any_cast")
       ELSE Val(d[k]))

Contains(h, p, k) ==
  /\ UNCHANGED <<root, ref>>
  /\ Label("contains", h, p, k, <<>>, B(k \in DOMAIN At(root[h], p)))

QIsDict(h, p, k) ==
  LET d == At(root[h], p) IN
  /\ UNCHANGED <<root, ref>>
  /\ Label("isDict", h, p, k, <<>>, B(k \in DOMAIN d /\ IsDict(d[k])))

QEmpty(h, p) ==
  /\ UNCHANGED <<root, ref>>
  /\ Label("empty", h, p, "", <<>>, B(DOMAIN At(root[h], p) = {}))

(* --------------------------- whole-object copies ------------------------ *)

CopyTo(h, g, how) ==          \* g = h, by copy construction or assignment
  /\ Depth(root[h]) <= MaxDepth[g]
  /\ root' = [root EXCEPT ![g] = root[h]]
  /\ ref' = IF g = h THEN [r \in Refs |-> IF ref[r].h = h /\ ref[r].p # <<>> THEN NoRef ELSE ref[r]]
            ELSE KillBelow(g, <<>>, TRUE)
  /\ Label("copy", h, <<>>, "", <<g, how>>, Ok)

CopySubTo(h, p, g) ==         \* g = h.subDict(..)
  /\ g # h /\ p # <<>> /\ Depth(At(root[h], p)) <= MaxDepth[g]
  /\ root' = [root EXCEPT ![g] = At(root[h], p)]
  /\ ref' = KillBelow(g, <<>>, TRUE)
  /\ Label("copySub", h, p, "", <<g>>, Ok)

MoveTo(h, g) ==               \* g = std::move(h); h = Dictionary()
  /\ g # h /\ Depth(root[h]) <= MaxDepth[g]
  /\ root' = [root EXCEPT ![g] = root[h], ![h] = Empty]
  /\ ref' = [r \in Refs |-> IF ref[r].h \in {g, h} /\ ref[r].p # <<>> THEN NoRef ELSE ref[r]]
  /\ Label("move", h, <<>>, "", <<g>>, Ok)

Clear(h) ==
  /\ root' = [root EXCEPT ![h] = Empty]
  /\ ref' = KillBelow(h, <<>>, TRUE)
  /\ Label("clear", h, <<>>, "", <<>>, Ok)

RECURSIVE FromList(_)
FromList(s) ==                \* the first of several entries for one key stands
  IF s = <<>> THEN Empty ELSE (s[1][1] :> s[1][2]) @@ FromList(Tail(s))

CtorList(g, s) ==
  /\ root' = [root EXCEPT ![g] = FromList(s)]
  /\ ref' = KillBelow(g, <<>>, TRUE)
  /\ Label("ctorList", g, <<>>, "", s, Ok)

CtorMap(g, s) ==
  /\ root' = [root EXCEPT ![g] = FromList(s)]
  /\ ref' = KillBelow(g, <<>>, TRUE)
  /\ Label("ctorMap", g, <<>>, "", s, Ok)

(* ------------------------------ held references ------------------------- *)

Hold(r, h, p) ==
  /\ ref' = [ref EXCEPT ![r] = [h |-> h, p |-> p]]
  /\ UNCHANGED root
  /\ Label("hold", h, p, "", <<r>>, Ok)

RefInsert(r, k, v) ==
  /\ ref[r] # NoRef
  /\ LET h == ref[r].h  p == ref[r].p IN
     /\ Fits(h, p, v)
     /\ WriteAt(h, p, Put(At(root[h], p), k, v))
     /\ ref' = KillBelow(h, Append(p, k), FALSE)
  /\ Label("refInsert", "", <<>>, k, <<r, v>>, Ok)

RefRemove(r, k) ==
  /\ ref[r] # NoRef
  /\ LET h == ref[r].h  p == ref[r].p IN
     /\ WriteAt(h, p, Del(At(root[h], p), k))
     /\ ref' = KillBelow(h, Append(p, k), FALSE)
  /\ Label("refRemove", "", <<>>, k, <<r>>, Ok)

RefRead(r) ==
  /\ ref[r] # NoRef
  /\ UNCHANGED <<root, ref>>
  /\ Label("refRead", "", <<>>, "", <<r>>, Val(DictV(At(root[ref[r].h], ref[r].p))))

(* ------------------------------------------------------------------------ *)

Next ==
  \E h \in Pick(Handles) : \E p \in Pick(Paths(root[h])) :
  \/ \E k \in Pick(Keys) :
     \/ "mod" \in Acts /\ \E v \in Pick(Vals) :
          InsertVal(h, p, k, v) \/ Assign(h, p, k, v) \/ SetTyped(h, p, k, v)
     \/ "mod" \in Acts /\ Remove(h, p, k)
     \/ "get" \in Acts /\ \E t \in Pick(Types), c \in Pick(BOOLEAN) :
          Get(h, p, k, t, c) \/ Index(h, p, k, c) \/ Sub(h, p, k, c)
     \/ "has" \in Acts /\ (Contains(h, p, k) \/ QIsDict(h, p, k))
     \/ "nest" \in Acts /\ \E g \in Pick(Handles) :
          \/ InsertDict(h, p, k, g) \/ SetSub(h, p, k, g)
          \/ InsertVal(h, p, k, DictV(Empty))
          \/ \E q \in Pick(Paths(root[g])) : \E j \in Pick(DOMAIN At(root[g], q)) :
               InsertFrom(h, p, k, g, q, j)
  \/ "has" \in Acts /\ QEmpty(h, p)
  \/ "copy" \in Acts /\ \E g \in Pick(Handles) :
       \/ \E how \in Pick({"ctor", "assign"}) : CopyTo(h, g, how)
       \/ CopySubTo(h, p, g)
       \/ MoveTo(h, g)
  \/ "clear" \in Acts /\ Clear(h)
  \/ "list" \in Acts /\ \E k1 \in Pick(Keys), k2 \in Pick(Keys), k3 \in Pick(Keys),
                          v1 \in Pick(Vals), v2 \in Pick(Vals), v3 \in Pick(Vals) :
       \/ CtorList(h, <<>>) \/ CtorList(h, << <<k1, v1>> >>)
       \/ CtorList(h, << <<k1, v1>>, <<k2, v2>>, <<k3, v3>> >>)
       \/ Cardinality({k1, k2, k3}) = 3 /\ CtorMap(h, << <<k1, v1>>, <<k2, v2>>, <<k3, v3>> >>)
  \/ "ref" \in Acts /\ \E r \in Pick(Refs) :
       \/ Hold(r, h, p)
       \/ \E k \in Pick(Keys) : RefRemove(r, k) \/ \E v \in Pick(Vals) : RefInsert(r, k, v)
       \/ RefRead(r)

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)

St  == [root |-> root, ref |-> ref]
Obs == root
Bound == TRUE

(* An error leaves every dictionary and every held reference as it was.     *)
ErrorsChangeNothing == [][ op'.r.e # "" => UNCHANGED <<root, ref>> ]_vars
(* A call on one object never changes another one (deep-copy independence). *)
Touched(o) == CASE o.n \in {"copy", "copySub"} -> {o.a[1]}
                [] o.n = "move" -> {o.h, o.a[1]}
                [] o.n \in {"refInsert", "refRemove"} -> {ref[o.a[1]].h}
                [] OTHER -> {o.h}
Independence == [][ \A h \in Handles : root'[h] # root[h] => h \in Touched(op') ]_vars
(* Only the addressed key of the addressed dictionary changes.              *)
Locality == [][ op'.n \in {"insert", "insertDict", "insertFrom", "assign", "setTyped", "setSub", "remove"}
                => LET d == At(root[op'.h], op'.p)  e == At(root'[op'.h], op'.p) IN
                   \A x \in (DOMAIN d \cup DOMAIN e) \ {op'.k} :
                      x \in DOMAIN d /\ x \in DOMAIN e /\ d[x] = e[x] ]_vars
(* Reads never modify.                                                      *)
ReadsPure == [][ op'.n \in {"get", "index", "sub", "contains", "isDict", "empty", "refRead"}
                 => UNCHANGED <<root, ref>> ]_vars
(* Insert is visible immediately.                                           *)
LastWriteWins == [][ op'.n = "insert" => At(root'[op'.h], op'.p)[op'.k] = op'.a[1] ]_vars
=============================================================================
