---------------------------- MODULE StencilCache ----------------------------
(***************************************************************************)
(* The per-mesh cache of stencils and geometry schemes: the first value    *)
(* stored under a name stays (same object), whatever is stored later.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Dbs, Keys, Vals, Types, Acts, Pick(_)
VARIABLES db,   \* name of cache -> (key -> value)
          ref,  \* held reference: NoRef or [d, k]
          op
vars == <<db, ref, op>>
NoRef == [d |-> "", k |-> ""]
Unit == [t |-> "unit", v |-> ""]
Ok == [e |-> "", v |-> Unit]
Val(v) == [e |-> "", v |-> v]
Err(x) == [e |-> x, v |-> Unit]
B(b) == Val([t |-> "bool", v |-> IF b THEN "true" ELSE "false"])
Label(n, d, k, a, r) == op' = [n |-> n, h |-> d, k |-> k, a |-> a, r |-> r]
Put(m, k, v) == (k :> v) @@ m

Init == /\ db = [d \in Dbs |-> <<>>] /\ ref = NoRef /\ op = [n |-> "init"]

Insert(d, k, v) ==
  /\ db' = IF k \in DOMAIN db[d] THEN db ELSE [db EXCEPT ![d] = Put(@, k, v)]
  /\ UNCHANGED ref
  /\ Label("insert", d, k, <<v>>, Ok)
Read(d, k, t) == IF k \notin DOMAIN db[d] THEN Err("out_of_range")
                 ELSE IF db[d][k].t # t THEN Err("bad_any_cast") ELSE Val(db[d][k])
Get(d, k, t, c) == UNCHANGED <<db, ref>> /\ Label("get", d, k, <<t, c>>, Read(d, k, t))
Index(d, k, c) == /\ UNCHANGED <<db, ref>>
                  /\ Label("index", d, k, <<c>>, IF k \in DOMAIN db[d] THEN Val(db[d][k]) ELSE Err("out_of_range"))
Contains(d, k) == UNCHANGED <<db, ref>> /\ Label("contains", d, k, <<>>, B(k \in DOMAIN db[d]))
Set(d, k, v) ==                       \* cache.get<T>(k) = v
  LET r == Read(d, k, v.t) IN
  /\ db' = IF r.e = "" THEN [db EXCEPT ![d][k] = v] ELSE db
  /\ UNCHANGED ref
  /\ Label("set", d, k, <<v>>, IF r.e = "" THEN Ok ELSE r)
Assign(d, k, v) ==                    \* cache[k] = v : replaces the stored object
  LET r == IF k \in DOMAIN db[d] THEN Ok ELSE Err("out_of_range") IN
  /\ db' = IF r.e = "" THEN [db EXCEPT ![d][k] = v] ELSE db
  /\ ref' = IF r.e = "" /\ ref = [d |-> d, k |-> k] THEN NoRef ELSE ref
  /\ Label("assign", d, k, <<v>>, r)
Hold(d, k) == /\ k \in DOMAIN db[d]
              /\ ref' = [d |-> d, k |-> k] /\ UNCHANGED db
              /\ Label("hold", d, k, <<>>, Ok)
RefRead == /\ ref # NoRef /\ UNCHANGED <<db, ref>>
           /\ Label("refRead", "", "", <<>>, Val(db[ref.d][ref.k]))
Copy(d, e) == /\ d # e
              /\ db' = [db EXCEPT ![e] = db[d]]
              /\ ref' = IF ref.d = e THEN NoRef ELSE ref
              /\ Label("copy", d, "", <<e>>, Ok)
Next ==
  \E d \in Pick(Dbs) :
  \/ \E k \in Pick(Keys) :
     \/ \E v \in Pick(Vals) : Insert(d, k, v) \/ Set(d, k, v) \/ ("assign" \in Acts /\ Assign(d, k, v))
     \/ \E t \in Pick(Types), c \in Pick(BOOLEAN) : Get(d, k, t, c) \/ Index(d, k, c)
     \/ Contains(d, k)
     \/ "ref" \in Acts /\ Hold(d, k)
  \/ "ref" \in Acts /\ RefRead
  \/ "copy" \in Acts /\ \E e \in Pick(Dbs) : Copy(d, e)
Spec == Init /\ [][Next]_vars
St == [db |-> db, ref |-> ref]
Obs == db
FirstInsertWins == [][ op'.n = "insert" => \A k \in DOMAIN db[op'.h] : db'[op'.h][k] = db[op'.h][k] ]_vars
InsertedIsThere == [][ op'.n = "insert" => op'.k \in DOMAIN db'[op'.h] ]_vars
Local == [][ \A d \in Dbs : db'[d] # db[d] =>
              d = (IF op'.n = "copy" THEN op'.a[1] ELSE op'.h) ]_vars
FailureKeeps == [][ op'.r.e # "" => UNCHANGED <<db, ref>> ]_vars
=============================================================================
