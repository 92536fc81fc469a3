------------------------------- MODULE Factory -------------------------------
(***************************************************************************)
(* Run-time selection: string key -> constructor tables.                   *)
(* Static registrations are present before anything runs; a late           *)
(* registration adds an entry; registering again changes nothing.          *)
(* Creating by a known name yields an object of exactly that type built    *)
(* from exactly the given arguments (values, references and move-only      *)
(* arguments arrive as such).  An unknown name ends the program with       *)
(* status 1 after listing the valid names; it never yields an object.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Bases,    \* base classes
          Static,   \* [base -> names registered before main]
          Late,     \* [base -> names that can be registered later]
          Unknown,  \* names nobody registers
          Objs, Args, Acts, Pick(_)
VARIABLES reg,      \* base -> registered names
          obj,      \* object handle -> "" or <<base, name, arg, log length seen>>
          log,      \* the caller's vector that constructors append to by reference
          op
vars == <<reg, obj, log, op>>
Unit == [t |-> "unit", v |-> ""]
Ok == [e |-> "", v |-> Unit]
Val(v) == [e |-> "", v |-> v]
Err(x) == [e |-> x, v |-> Unit]
Str(s) == Val([t |-> "str", v |-> s])
Label(n, h, k, a, r) == op' = [n |-> n, h |-> h, k |-> k, a |-> a, r |-> r]
AsMap(S) == [k \in S |-> TRUE]
None == [b |-> "", k |-> "", a |-> ""]
Names(b) == Static[b] \cup Late[b]

Init == /\ reg = [b \in Bases |-> Static[b]]
        /\ obj = [o \in Objs |-> None]
        /\ log = <<>>
        /\ op = [n |-> "init"]

Create(b, k, a, o) ==
  IF k \in reg[b]
  THEN /\ obj' = [obj EXCEPT ![o] = [b |-> b, k |-> k, a |-> a]]
       /\ log' = IF b = "Args" THEN Append(log, k \o a) ELSE log
       /\ UNCHANGED reg
       /\ Label("create", b, k, <<a, o>>, Val([t |-> "obj", b |-> b, k |-> k, a |-> a]))
  ELSE /\ UNCHANGED <<reg, obj, log>>
       /\ Label("create", b, k, <<a, o>>, Err("exit 1 after naming every valid name"))
Use(o) == /\ obj[o] # None /\ UNCHANGED <<reg, obj, log>>
          /\ Label("use", "", "", <<o>>, Val([t |-> "obj", b |-> obj[o].b, k |-> obj[o].k, a |-> obj[o].a]))
Destroy(o) == /\ obj' = [obj EXCEPT ![o] = None] /\ UNCHANGED <<reg, log>>
              /\ Label("destroy", "", "", <<o>>, Ok)
Register(b, k) ==
  /\ k \in Names(b)
  /\ reg' = [reg EXCEPT ![b] = @ \cup {k}]
  /\ UNCHANGED <<obj, log>>
  /\ Label("register", b, k, <<>>, Val([t |-> "bool", v |-> "true"]))
Doc(b, k, how) ==
  /\ UNCHANGED <<reg, obj, log>>
  /\ Label(how, b, k, <<>>, IF k \in reg[b] THEN Str(how \o " of " \o b \o "." \o k) ELSE Err("out_of_range"))
NoBase(how, k) == /\ UNCHANGED <<reg, obj, log>>
  /\ Label(how, "NoSuchBase", k, <<>>, Err("out_of_range"))
PrintTable(b) == /\ UNCHANGED <<reg, obj, log>> /\ Label("print", b, "", <<>>, Val([t |-> "set", v |-> AsMap(reg[b])]))
Size(b) == /\ UNCHANGED <<reg, obj, log>> /\ Label("size", b, "", <<>>, Val([t |-> "size_t", v |-> ToString(Cardinality(reg[b]))]))

Next ==
  \E b \in Pick(Bases) :
  \/ \E k \in Pick(Names(b) \cup Unknown) :
     \/ \E a \in Pick(Args), o \in Pick(Objs) : Create(b, k, a, o)
     \/ \E how \in Pick({"doc", "schema", "docVia", "schemaVia"}) : Doc(b, k, how)
     \/ Register(b, k)
     \/ \E how \in Pick({"docVia", "schemaVia", "entriesVia"}) : NoBase(how, k)
  \/ \E o \in Pick(Objs) : Use(o) \/ Destroy(o)
  \/ PrintTable(b) \/ Size(b)
Spec == Init /\ [][Next]_vars
St == [reg |-> reg, obj |-> obj, log |-> log]
Obs == [reg |-> [b \in Bases |-> AsMap(reg[b])], log |-> log]
Short == Len(log) <= 2
OnlyRegistered == \A o \in Objs : obj[o] # None => obj[o].k \in reg[obj[o].b]
NeverUnregistered == [][ \A b \in Bases : reg[b] \subseteq reg'[b] ]_vars
RightType == [][ op'.n = "create" /\ op'.r.e = "" => op'.r.v.k = op'.k /\ op'.k \in reg[op'.h] ]_vars
UnknownCreatesNothing == [][ op'.n = "create" /\ op'.k \notin reg[op'.h] => op'.r.e # "" /\ UNCHANGED <<obj, log>> ]_vars
=============================================================================
