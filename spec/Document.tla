------------------------------ MODULE Document ------------------------------
(***************************************************************************)
(* NeoFOAM::Document: a dictionary with an identity and a validator.       *)
(* Generated identities are modelled as "#1", "#2", ... in order of first  *)
(* appearance; the replay driver names the code's ids the same way, so two *)
(* documents that ever share a generated id show up as a wrong name.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Handles, Keys, Vals, Validators, Dicts, Acts, Pick(_)

VARIABLES doc,    \* handle -> NoDoc | [d |-> fields, v |-> validator]
          next,   \* number of generated ids seen so far
          op
vars == <<doc, next, op>>

NoDoc == [d |-> <<>>, v |-> "none"]
Live(h) == doc[h].v # "none"
Put(d, k, v) == (k :> v) @@ d
Del(d, k) == [x \in DOMAIN d \ {k} |-> d[x]]
Str(s) == [t |-> "str", v |-> s]
Unit == [t |-> "unit", v |-> ""]
Ok == [e |-> "", v |-> Unit]
Val(v) == [e |-> "", v |-> v]
Err(x) == [e |-> x, v |-> Unit]
B(b) == Val([t |-> "bool", v |-> IF b THEN "true" ELSE "false"])
Label(n, h, k, a, r) == op' = [n |-> n, h |-> h, k |-> k, a |-> a, r |-> r]

Holds(v, d) ==
  CASE v = "hasId"    -> "id" \in DOMAIN d
    [] v = "named"    -> "name" \in DOMAIN d
    [] v = "nameAndV" -> "name" \in DOMAIN d /\ "v" \in DOMAIN d
    [] v = "vIs1"     -> "v" \in DOMAIN d /\ d["v"] = [t |-> "int", v |-> "1"]
    [] v = "noX"      -> "x" \notin DOMAIN d
    [] v = "always"   -> TRUE
    [] v = "never"    -> FALSE

Fresh == Str("#" \o ToString(next + 1))
IdVal(d) == IF "id" \notin DOMAIN d THEN Err("out_of_range")
            ELSE IF d["id"].t # "str" THEN Err("bad_any_cast") ELSE Val(d["id"])

Init == /\ doc = [h \in Handles |-> NoDoc]
        /\ next = 0
        /\ op = [n |-> "init"]

New(h) ==                          \* Document()
  /\ next' = next + 1
  /\ doc' = [doc EXCEPT ![h] = [d |-> ("id" :> Fresh), v |-> "hasId"]]
  /\ Label("new", h, "", <<>>, Ok)

Make(h, d0, v) ==                  \* Document(dict, validator)
  LET d == IF "id" \in DOMAIN d0 THEN d0 ELSE Put(d0, "id", Fresh) IN
  IF Holds(v, d)
  THEN /\ doc' = [doc EXCEPT ![h] = [d |-> d, v |-> v]]
       /\ next' = IF "id" \in DOMAIN d0 THEN next ELSE next + 1
       /\ Label("make", h, "", <<d0, v>>, Ok)
  ELSE /\ UNCHANGED <<doc, next>>
       /\ Label("make", h, "", <<d0, v>>, Err("runtime_error"))

MakeDefault(h, d0) ==              \* Document(dict): the default validator
  LET d == IF "id" \in DOMAIN d0 THEN d0 ELSE Put(d0, "id", Fresh) IN
  /\ doc' = [doc EXCEPT ![h] = [d |-> d, v |-> "hasId"]]
  /\ next' = IF "id" \in DOMAIN d0 THEN next ELSE next + 1
  /\ Label("makeDefault", h, "", <<d0>>, Ok)

Insert(h, k, v) ==
  /\ Live(h)
  /\ doc' = [doc EXCEPT ![h].d = Put(doc[h].d, k, v)]
  /\ UNCHANGED next
  /\ Label("insert", h, k, <<v>>, Ok)

Remove(h, k) ==
  /\ Live(h)
  /\ doc' = [doc EXCEPT ![h].d = Del(doc[h].d, k)]
  /\ UNCHANGED next
  /\ Label("remove", h, k, <<>>, Ok)

Validate(h) ==
  /\ Live(h)
  /\ UNCHANGED <<doc, next>>
  /\ Label("validate", h, "", <<>>, IF Holds(doc[h].v, doc[h].d) THEN B(TRUE) ELSE Err("runtime_error"))

Id(h) ==
  /\ Live(h)
  /\ UNCHANGED <<doc, next>>
  /\ Label("id", h, "", <<>>, IdVal(doc[h].d))

NameOf(h) ==                       \* free function name(doc)
  /\ Live(h)
  /\ UNCHANGED <<doc, next>>
  /\ Label("name", h, "", <<>>,
       LET d == doc[h].d IN
       IF "name" \notin DOMAIN d THEN Err("out_of_range")
       ELSE IF d["name"].t # "str" THEN Err("bad_any_cast") ELSE Val(d["name"]))

SetName(h, s) ==                   \* name(doc) = s
  /\ Live(h)
  /\ UNCHANGED next
  /\ LET d == doc[h].d IN
     IF "name" \notin DOMAIN d
     THEN UNCHANGED doc /\ Label("setName", h, "", <<s>>, Err("out_of_range"))
     ELSE IF d["name"].t # "str"
     THEN UNCHANGED doc /\ Label("setName", h, "", <<s>>, Err("bad_any_cast"))
     ELSE doc' = [doc EXCEPT ![h].d = Put(d, "name", Str(s))] /\ Label("setName", h, "", <<s>>, Ok)

Copy(h, g, how) ==
  /\ Live(h)
  /\ doc' = [doc EXCEPT ![g] = doc[h]]
  /\ UNCHANGED next
  /\ Label("copy", h, "", <<g, how>>, Ok)

Move(h, g) ==
  /\ Live(h) /\ g # h
  /\ doc' = [doc EXCEPT ![g] = doc[h], ![h] = NoDoc]
  /\ UNCHANGED next
  /\ Label("move", h, "", <<g>>, Ok)

AsDict(h, g, v) ==                 \* Document(static_cast<Dictionary>(h), v): same id
  /\ Live(h)
  /\ UNCHANGED next
  /\ "id" \in DOMAIN doc[h].d
  /\ IF Holds(v, doc[h].d)
     THEN doc' = [doc EXCEPT ![g] = [d |-> doc[h].d, v |-> v]] /\ Label("rebuild", h, "", <<g, v>>, Ok)
     ELSE UNCHANGED doc /\ Label("rebuild", h, "", <<g, v>>, Err("runtime_error"))

Next ==
  \E h \in Pick(Handles) :
  \/ New(h)
  \/ \E d \in Pick(Dicts) : MakeDefault(h, d) \/ \E v \in Pick(Validators) : Make(h, d, v)
  \/ "mut" \in Acts /\ \E k \in Pick(Keys) : Remove(h, k) \/ \E v \in Pick(Vals) : Insert(h, k, v)
  \/ Validate(h) \/ Id(h)
  \/ "name" \in Acts /\ (NameOf(h) \/ \E s \in Pick({"n1", "n2"}) : SetName(h, s))
  \/ "copy" \in Acts /\ \E g \in Pick(Handles) :
       \/ \E how \in Pick({"ctor", "assign"}) : Copy(h, g, how)
       \/ Move(h, g) \/ \E v \in Pick(Validators) : AsDict(h, g, v)

Spec == Init /\ [][Next]_vars
St == [doc |-> doc, next |-> next]
Obs == [h \in Handles |-> doc[h].d]
Few == next <= 2

TypeOK == \A h \in Handles : Live(h) => doc[h].v \in Validators \cup {"hasId"}
(* A rejected document never comes into existence; whatever exists satisfied *)
(* its validator when it was made.                                           *)
BornValid == [][ op'.n \in {"new", "make", "makeDefault"} /\ op'.r.e = ""
                 => Holds(doc'[op'.h].v, doc'[op'.h].d) ]_vars
RejectedLeavesNothing == [][ op'.r.e # "" => UNCHANGED <<doc, next>> ]_vars
(* A generated id belongs to no document that exists already.               *)
FreshIsFresh == [][ next' # next => \A g \in Handles : Live(g) /\ "id" \in DOMAIN doc[g].d
                     => doc[g].d["id"] # Fresh ]_vars
=============================================================================
