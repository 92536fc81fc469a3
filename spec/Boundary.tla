------------------------------ MODULE Boundary ------------------------------
(***************************************************************************)
(* Cell (vol) and face (surf) fields with a boundary condition per patch.  *)
(* Correcting the boundary conditions gives every face of a patch what its *)
(* own condition says, from the current values of the field, and changes   *)
(* nothing else.  Where the value fraction is 1 the reference gradient has *)
(* no meaning and is shown as 0, and the other way round.                  *)
(***************************************************************************)
EXTENDS MeshBase
CONSTANTS Handles, Meshes, Execs, Types, Vals, Scheds, Acts, Pick(_)
VARIABLES fld,  \* handle -> None or [x, m, kind, bc |-> patch -> [t |-> type, v |-> value], v |-> values, val, vf, rv, rg |-> per boundary face]
          out, op
vars == <<fld, out, op>>
None == [x |-> ""]
Unit == [t |-> "unit", v |-> ""]
Label(n, h, a, s, e) == op' = [n |-> n, h |-> h, k |-> "", a |-> a, s |-> s, r |-> [e |-> e, v |-> Unit]]
Is(h) == fld[h] # None
Init == fld = [h \in Handles |-> None] /\ out = <<>> /\ op = [n |-> "init"]
Size(m, kind) == IF kind = "vol" THEN m.nC ELSE NF(m)
Gen(n, c) == [i \in 1..n |-> ((i * i + c * i) % 11) - 5]
Kinds(kind) == IF kind = "vol" THEN {"fixedValue", "fixedGradient", "extrapolated", "calculated", "empty"} ELSE {"fixedValue", "calculated", "empty"}
\* conditions of the patches chosen by a number: the p-th patch gets type p + c of a fixed order
Order(kind) == IF kind = "vol" THEN <<"fixedValue", "fixedGradient", "extrapolated", "calculated", "empty">> ELSE <<"fixedValue", "calculated", "empty">>
Conditions(m, kind, c, d) == [p \in 1..NPatches(m) |-> LET o == Order(kind) IN [t |-> o[((p * d + c) % Len(o)) + 1], v |-> c * p - 3]]
New(h, x, i, kind, c, d, s) ==
  LET m == Meshes[i]  n == Size(m, kind)  bc == Conditions(m, kind, c, d) IN
  /\ fld' = [fld EXCEPT ![h] = [x |-> x, m |-> i, kind |-> kind, bc |-> bc, v |-> Gen(n, c),
                                val |-> [b \in 1..NB(m) |-> 7000 + b], vf |-> [b \in 1..NB(m) |-> 100],
                                rv |-> [b \in 1..NB(m) |-> 8000 + b], rg |-> [b \in 1..NB(m) |-> 9000 + b]]]
  /\ out' = <<>> /\ Label("new", h, <<x, i, kind, bc, Gen(n, c)>>, s, "")
Correct(h, s) ==
  LET f == fld[h]  m == Meshes[f.m]
      P(b) == f.bc[PatchOf(m, b)]
      cell(b) == f.v[m.bc[b] + 1]
      val(b) == CASE P(b).t = "fixedValue" -> P(b).v
                  [] P(b).t = "fixedGradient" -> cell(b) + P(b).v * m.bd[b]
                  [] P(b).t = "extrapolated" -> cell(b)
                  [] OTHER -> f.val[b]
      vf(b) == IF f.kind = "surf" THEN f.vf[b] ELSE CASE P(b).t = "fixedGradient" -> 0 [] P(b).t \in {"fixedValue", "extrapolated"} -> 1 [] OTHER -> f.vf[b]
      rv(b) == CASE P(b).t = "fixedValue" -> P(b).v [] P(b).t = "fixedGradient" -> 0 [] P(b).t = "extrapolated" -> cell(b) [] OTHER -> f.rv[b]
      rg(b) == IF f.kind = "surf" THEN f.rg[b]
               ELSE CASE P(b).t = "fixedGradient" -> P(b).v [] P(b).t \in {"fixedValue", "extrapolated"} -> 0 [] OTHER -> f.rg[b]
      v(i) == IF f.kind = "surf" /\ i > NI(m) /\ P(i - NI(m)).t = "fixedValue" THEN P(i - NI(m)).v ELSE f.v[i]
  IN /\ Is(h)
     /\ fld' = [fld EXCEPT ![h] = [f EXCEPT !.v = [i \in DOMAIN f.v |-> v(i)], !.val = [b \in 1..NB(m) |-> val(b)], !.vf = [b \in 1..NB(m) |-> vf(b)],
                                   !.rv = [b \in 1..NB(m) |-> rv(b)], !.rg = [b \in 1..NB(m) |-> rg(b)]]]
     /\ out' = <<>> /\ Label("correct", h, <<>>, s, "")
Values(h, c, s) == Is(h) /\ fld' = [fld EXCEPT ![h].v = Gen(Len(@), c)] /\ out' = <<>> /\ Label("values", h, <<Gen(Len(fld[h].v), c)>>, s, "")
Write(h, b, c, s) == /\ Is(h) /\ b \in DOMAIN fld[h].val /\ fld' = [fld EXCEPT ![h].val[b] = c]
                     /\ out' = <<>> /\ Label("write", h, <<b - 1, c>>, s, "")
\* how: "copy" (copy constructor) or "parts" (a new field from the values and conditions; boundary data as in "new")
Copy(g, h, how, s) ==
  /\ Is(h) /\ g # h /\ (how = "parts" => fld[h].kind = "vol")
  /\ fld' = [fld EXCEPT ![g] = IF how = "copy" THEN fld[h]
                                ELSE [fld[h] EXCEPT !.val = [b \in DOMAIN @ |-> 7000 + b], !.vf = [b \in DOMAIN @ |-> 100],
                                                    !.rv = [b \in DOMAIN @ |-> 8000 + b], !.rg = [b \in DOMAIN @ |-> 9000 + b]]]
  /\ out' = <<>> /\ Label("copy", g, <<h, how>>, s, "")
\* the faces of patch p: start, end, size, number
Patch(x, i, p, s) == /\ p \in 1..NPatches(Meshes[i]) /\ UNCHANGED fld
                     /\ LET m == Meshes[i] IN out' = <<m.off[p], m.off[p + 1], m.off[p + 1] - m.off[p], p - 1>>
                     /\ Label("patch", "", <<x, i, p - 1>>, s, "")
\* an unknown type, a missing value, a value of another type are errors; so is a field of another size than the mesh
Bad(x, i, what, kind, s) ==
  /\ UNCHANGED fld /\ out' = <<>>
  /\ (what = "size" => kind = "vol")
  /\ Label("bad", "", <<x, i, what, kind>>, s, IF what \in {"type", "size"} THEN "stopped" ELSE "threw")

Next == \E s \in Pick(Scheds), h \in Pick(Handles) :
  \/ \E x \in Pick(Execs), i \in Pick(DOMAIN Meshes) :
       \/ \E kind \in Pick({"vol", "surf"}), c \in Pick(Vals), d \in Pick({1, 2}) : New(h, x, i, kind, c, d, s)
       \/ "query" \in Acts /\ \E p \in Pick(1..4) : Patch(x, i, p, s)
       \/ "bad" \in Acts /\ \E w \in Pick({"type", "missing", "other", "size"}), kind \in Pick({"vol", "surf"}) : Bad(x, i, w, kind, s)
  \/ Correct(h, s)
  \/ \E c \in Pick(Vals) : Values(h, c, s)
  \/ "write" \in Acts /\ \E c \in Pick(Vals), b \in Pick(1..6) : Write(h, b, c, s)
  \/ \E g \in Pick(Handles), how \in Pick({"copy", "parts"}) : Copy(g, h, how, s)
Spec == Init /\ [][Next]_vars
St == <<fld>>
Show(f) == IF f = None THEN f ELSE [x |-> f.x, v |-> f.v, val |-> f.val, vf |-> f.vf, rv |-> f.rv, rg |-> f.rg]
Obs == [fld |-> [h \in Handles |-> Show(fld[h])], out |-> out]
TypeOK == \A h \in Handles : Is(h) => /\ Len(fld[h].v) = Size(Meshes[fld[h].m], fld[h].kind)
                                      /\ Len(fld[h].val) = NB(Meshes[fld[h].m])
Local == [][ \A h \in Handles : h # op'.h => fld'[h] = fld[h] ]_vars
\* cell values never change by correcting; correcting twice is correcting once
CellsStay == [][ op'.n = "correct" /\ fld[op'.h].kind = "vol" => fld'[op'.h].v = fld[op'.h].v ]_vars
Idempotent == [][ op.n = "correct" /\ op'.n = "correct" /\ op.h = op'.h => fld' = fld ]_vars
\* faces of a calculated or empty patch keep what they have
Kept == [][ op'.n = "correct" => \A b \in DOMAIN fld[op'.h].val :
             fld[op'.h].bc[PatchOf(Meshes[fld[op'.h].m], b)].t \in {"calculated", "empty"} =>
               fld'[op'.h].val[b] = fld[op'.h].val[b] /\ fld'[op'.h].vf[b] = fld[op'.h].vf[b] ]_vars
=============================================================================
