------------------------------ MODULE Database ------------------------------
(***************************************************************************)
(* The in-memory database: named, type-erased collections of documents.    *)
(*                                                                         *)
(* State: per database a finite map from names to collections; a           *)
(* collection has its concrete type, its own name, the database it was     *)
(* made for and a finite map id -> document.  "Loose" collections are      *)
(* type-erased objects a caller holds outside any database; `ref` is a     *)
(* reference to a document and `cref` one to a collection, both kept by a  *)
(* caller across later modifications.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS
  Dbs, Names, ColTypes, CNames,
  Order,      \* all document ids, in byte order
  Vals, Loose, Preds, Acts, Pick(_)
VARIABLES db, loose, ref, cref, op
vars == <<db, loose, ref, cref, op>>

Ids == { Order[i] : i \in 1..Len(Order) }
NoCol == [t |-> "", n |-> "", d |-> "", docs |-> <<>>]
NoRef == [d |-> "", k |-> "", i |-> ""]
Unit == [t |-> "unit", v |-> ""]
Ok == [e |-> "", v |-> Unit]
Val(v) == [e |-> "", v |-> v]
Err(x) == [e |-> x, v |-> Unit]
B(b) == Val([t |-> "bool", v |-> IF b THEN "true" ELSE "false"])
N(n) == Val([t |-> "size_t", v |-> ToString(n)])
Put(m, k, v) == (k :> v) @@ m
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Label(n, d, k, a, r) == op' = [n |-> n, h |-> d, k |-> k, a |-> a, r |-> r]
Has(d, k) == k \in DOMAIN db[d]
Docs(d, k) == db[d][k].docs
Sorted(S) == SelectSeq(Order, LAMBDA i : i \in S)
Summary(c) == [t |-> "col", ty |-> c.t, n |-> c.n, size |-> ToString(Cardinality(DOMAIN c.docs))]

Matches(p, c) ==
  { i \in DOMAIN c.docs :
      CASE p = "all" -> TRUE [] p = "none" -> FALSE
        [] p = "v1" -> c.docs[i] = "1" [] p = "not1" -> c.docs[i] # "1"
        [] p = "firstId" -> i = Order[1] [] p = "lastId" -> i = Order[Len(Order)] }

Init == /\ db = [d \in Dbs |-> <<>>]
        /\ loose = [l \in Loose |-> NoCol]
        /\ ref = NoRef /\ cref = NoRef
        /\ op = [n |-> "init"]

(* ------------------------------- database ------------------------------- *)
InsertCol(d, k, t, n) ==             \* an existing collection is kept and returned
  LET c == [t |-> t, n |-> n, d |-> d, docs |-> <<>>] IN
  /\ db' = IF Has(d, k) THEN db ELSE [db EXCEPT ![d] = Put(@, k, c)]
  /\ UNCHANGED <<loose, ref, cref>>
  /\ Label("insertCol", d, k, <<t, n>>, Val(Summary(IF Has(d, k) THEN db[d][k] ELSE c)))
InsertLoose(d, k, l) ==              \* move a type-erased collection into the database
  /\ loose[l] # NoCol /\ loose[l].d = d
  /\ db' = IF Has(d, k) THEN db ELSE [db EXCEPT ![d] = Put(@, k, loose[l])]
  /\ loose' = [loose EXCEPT ![l] = NoCol]      \* (what is left of the source is not specified)
  /\ UNCHANGED <<ref, cref>>
  /\ Label("insertLoose", d, k, <<l>>, Val(Summary(IF Has(d, k) THEN db[d][k] ELSE loose[l])))
Contains(d, k) == UNCHANGED <<db, loose, ref, cref>> /\ Label("contains", d, k, <<>>, B(Has(d, k)))
SizeDb(d) == UNCHANGED <<db, loose, ref, cref>> /\ Label("sizeDb", d, "", <<>>, N(Cardinality(DOMAIN db[d])))
RemoveCol(d, k) ==
  /\ db' = [db EXCEPT ![d] = Del(@, k)]
  /\ ref' = IF ref.d = d /\ ref.k = k THEN NoRef ELSE ref
  /\ cref' = IF cref.d = d /\ cref.k = k THEN NoRef ELSE cref
  /\ UNCHANGED loose
  /\ Label("removeCol", d, k, <<>>, B(Has(d, k)))
AtCol(d, k, c) == UNCHANGED <<db, loose, ref, cref>>
  /\ Label("at", d, k, <<c>>, IF Has(d, k) THEN Val(Summary(db[d][k])) ELSE Err("out_of_range"))
AtTyped(d, k, t) == UNCHANGED <<db, loose, ref, cref>>
  /\ Label("atTyped", d, k, <<t>>, IF ~Has(d, k) THEN Err("out_of_range")
                                ELSE IF db[d][k].t # t THEN Err("bad_cast") ELSE Val(Summary(db[d][k])))
(* ------------------------------ collections ----------------------------- *)
InsertDoc(d, k, i, v) ==             \* false and no change if the id is present
  /\ Has(d, k)
  /\ db' = IF i \in DOMAIN Docs(d, k) THEN db ELSE [db EXCEPT ![d][k].docs = Put(@, i, v)]
  /\ UNCHANGED <<loose, ref, cref>>
  /\ Label("insertDoc", d, k, <<i, v>>, B(i \notin DOMAIN Docs(d, k)))
ReadDoc(d, k, i, c) == /\ Has(d, k) /\ UNCHANGED <<db, loose, ref, cref>>
  /\ Label("readDoc", d, k, <<i, c>>, IF i \in DOMAIN Docs(d, k)
           THEN Val([t |-> "doc", id |-> i, v |-> Docs(d, k)[i]]) ELSE Err("out_of_range"))
WriteDoc(d, k, i, v) ==              \* through the type-erased interface
  /\ Has(d, k)
  /\ db' = IF i \in DOMAIN Docs(d, k) THEN [db EXCEPT ![d][k].docs[i] = v] ELSE db
  /\ UNCHANGED <<loose, ref, cref>>
  /\ Label("writeDoc", d, k, <<i, v>>, IF i \in DOMAIN Docs(d, k) THEN Ok ELSE Err("out_of_range"))
Find(d, k, p, how) == /\ Has(d, k) /\ UNCHANGED <<db, loose, ref, cref>>
  /\ Label("find", d, k, <<p, how>>, Val([t |-> "ids", v |-> Sorted(Matches(p, db[d][k]))]))
SortedKeys(d, k) == /\ Has(d, k) /\ UNCHANGED <<db, loose, ref, cref>>
  /\ Label("sortedKeys", d, k, <<>>, Val([t |-> "ids", v |-> Sorted(DOMAIN Docs(d, k))]))
(* ------------------------- type-erased collections ---------------------- *)
MakeLoose(l, t, n, d) ==
  /\ loose' = [loose EXCEPT ![l] = [t |-> t, n |-> n, d |-> d, docs |-> <<>>]]
  /\ UNCHANGED <<db, ref, cref>>
  /\ Label("makeLoose", l, "", <<t, n, d>>, Ok)
MoveLoose(l, m, how) ==              \* Collection(Collection&&) / operator=(Collection&&)
  /\ l # m /\ loose[l] # NoCol
  /\ loose' = [loose EXCEPT ![m] = loose[l], ![l] = NoCol]
  /\ UNCHANGED <<db, ref, cref>>
  /\ Label("moveLoose", l, "", <<m, how>>, Ok)
TakeOut(d, k, l) ==                  \* Collection c(std::move(db.at(k))); db.remove(k)
  /\ Has(d, k)
  /\ loose' = [loose EXCEPT ![l] = db[d][k]]
  /\ db' = [db EXCEPT ![d] = Del(@, k)]
  /\ ref' = IF ref.d = d /\ ref.k = k THEN NoRef ELSE ref
  /\ cref' = IF cref.d = d /\ cref.k = k THEN NoRef ELSE cref
  /\ Label("takeOut", d, k, <<l>>, Ok)
LooseDoc(l, i, v) ==
  /\ loose[l] # NoCol
  /\ loose' = IF i \in DOMAIN loose[l].docs THEN loose ELSE [loose EXCEPT ![l].docs = Put(@, i, v)]
  /\ UNCHANGED <<db, ref, cref>>
  /\ Label("looseDoc", l, "", <<i, v>>, B(i \notin DOMAIN loose[l].docs))
LooseAs(l, t, c) == /\ loose[l] # NoCol /\ UNCHANGED <<db, loose, ref, cref>>
  /\ Label("looseAs", l, "", <<t, c>>, IF loose[l].t = t THEN Val(Summary(loose[l])) ELSE Err("bad_cast"))
(* ------------------------------ references ------------------------------ *)
HoldDoc(d, k, i) == /\ Has(d, k) /\ i \in DOMAIN Docs(d, k)
  /\ ref' = [d |-> d, k |-> k, i |-> i] /\ UNCHANGED <<db, loose, cref>>
  /\ Label("holdDoc", d, k, <<i>>, Ok)
RefRead == /\ ref # NoRef /\ UNCHANGED <<db, loose, ref, cref>>
  /\ Label("refRead", "", "", <<>>, Val([t |-> "doc", id |-> ref.i, v |-> Docs(ref.d, ref.k)[ref.i]]))
RefWrite(v) == /\ ref # NoRef /\ db' = [db EXCEPT ![ref.d][ref.k].docs[ref.i] = v]
  /\ UNCHANGED <<loose, ref, cref>>
  /\ Label("refWrite", "", "", <<v>>, Ok)
HoldCol(d, k) == /\ Has(d, k) /\ cref' = [d |-> d, k |-> k, i |-> ""] /\ UNCHANGED <<db, loose, ref>>
  /\ Label("holdCol", d, k, <<>>, Ok)
CRefRead == /\ cref # NoRef /\ UNCHANGED <<db, loose, ref, cref>>
  /\ Label("crefRead", "", "", <<>>, Val(Summary(db[cref.d][cref.k])))

Next ==
  \E d \in Pick(Dbs) : \E k \in Pick(Names) :
  \/ \E t \in Pick(ColTypes), n \in Pick(CNames) : InsertCol(d, k, t, n)
  \/ "db" \in Acts /\ (Contains(d, k) \/ SizeDb(d) \/ \E c \in Pick(BOOLEAN) : AtCol(d, k, c)
                       \/ \E t \in Pick(ColTypes) : AtTyped(d, k, t))
  \/ "rm" \in Acts /\ RemoveCol(d, k)
  \/ "doc" \in Acts /\ \E i \in Pick(Ids) :
       \/ \E v \in Pick(Vals) : InsertDoc(d, k, i, v) \/ WriteDoc(d, k, i, v)
       \/ \E c \in Pick(BOOLEAN) : ReadDoc(d, k, i, c)
  \/ "query" \in Acts /\ (SortedKeys(d, k) \/ \E p \in Pick(Preds), how \in Pick({"erased", "typed"}) : Find(d, k, p, how))
  \/ "loose" \in Acts /\ \E l \in Pick(Loose) :
       \/ \E t \in Pick(ColTypes) : (\E n \in Pick(CNames) : MakeLoose(l, t, n, d)) \/ \E c \in Pick(BOOLEAN) : LooseAs(l, t, c)
       \/ \E m \in Pick(Loose), how \in Pick({"ctor", "assign"}) : MoveLoose(l, m, how)
       \/ InsertLoose(d, k, l) \/ TakeOut(d, k, l)
       \/ \E i \in Pick(Ids), v \in Pick(Vals) : LooseDoc(l, i, v)
  \/ "ref" \in Acts /\ ((\E i \in Pick(Ids) : HoldDoc(d, k, i)) \/ RefRead \/ HoldCol(d, k) \/ CRefRead
                         \/ \E v \in Pick(Vals) : RefWrite(v))
Spec == Init /\ [][Next]_vars
St == [db |-> db, loose |-> loose, ref |-> ref, cref |-> cref]
Obs == [db |-> db, loose |-> loose]

TypeOK == /\ \A d \in Dbs : \A k \in DOMAIN db[d] : db[d][k].d = d /\ DOMAIN db[d][k].docs \subseteq Ids
          /\ ref # NoRef => ref.i \in DOMAIN Docs(ref.d, ref.k)
          /\ cref # NoRef => Has(cref.d, cref.k)
(* A collection that is there is never replaced by an insertion.            *)
FirstStays == [][ op'.n \in {"insertCol", "insertLoose"} =>
                  \A k \in DOMAIN db[op'.h] : db'[op'.h][k] = db[op'.h][k] ]_vars
(* Nor is a document.                                                       *)
DocStays == [][ op'.n = "insertDoc" => \A i \in DOMAIN Docs(op'.h, op'.k) :
                 Docs(op'.h, op'.k)[i] = db'[op'.h][op'.k].docs[i] ]_vars
(* Databases do not influence each other.                                   *)
Apart == [][ \A d \in Dbs : db'[d] # db[d] =>
             d = (CASE op'.n = "refWrite" -> ref.d [] OTHER -> op'.h) ]_vars
FailureKeeps == [][ op'.r.e # "" => UNCHANGED <<db, loose, ref, cref>> ]_vars
FindExact == [][ op'.n = "find" /\ Has(op'.h, op'.k) =>
                 { op'.r.v.v[i] : i \in 1..Len(op'.r.v.v) } = Matches(op'.a[1], db[op'.h][op'.k]) ]_vars
=============================================================================
