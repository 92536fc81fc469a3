------------------------------- MODULE FvOps -------------------------------
(***************************************************************************)
(* Discrete operators on the mesh and fields of a case cur: interpolation, *)
(* face gradients, explicit and implicit finite-volume operators.  cur has *)
(* the mesh m (an index), the conditions bc of its patches, cell values v, *)
(* old and src, face values flux and gam.  Boundary values are those of    *)
(* the corrected field.                                                    *)
(*                                                                         *)
(* All numbers are integers: see MeshBase for the scales dw and dn.        *)
(***************************************************************************)
EXTENDS MeshBase
CONSTANTS Meshes, Acts
VARIABLE cur
M == Meshes[cur.m]
\* tables, computed once: faces of a cell, weights * dw, non-orthogonal coefficients * dn
FacesOf == [i \in DOMAIN Meshes |-> [c \in 1..Meshes[i].nC |-> Faces(Meshes[i], c - 1)]]
W == [i \in DOMAIN Meshes |-> [f \in 1..NF(Meshes[i]) |-> LET w == Weight(Meshes[i], f) IN w[1] * (Meshes[i].dw \div w[2])]]
\* the coefficient is n/d up to a common factor of d and dn
O == [i \in DOMAIN Meshes |-> [f \in 1..NF(Meshes[i]) |-> LET o == NonOrth(Meshes[i], f) IN (o[1] * Meshes[i].dn) \div o[2]]]
PatchT == [i \in DOMAIN Meshes |-> [b \in 1..NB(Meshes[i]) |-> PatchOf(Meshes[i], b)]]
\* where the boundary is orthogonal and bd is the distance to it
Straight == [i \in DOMAIN Meshes |-> \A b \in 1..NB(Meshes[i]) : O[i][NI(Meshes[i]) + b] * Meshes[i].bd[b] = Meshes[i].dn]
Gen(n, c, p) == [i \in 1..n |-> ((i * i + c * i + c) % (2 * p + 1)) - p]
OutflowOf(i, c, Q(_)) ==
  MapThenSumSet(LAMBDA f : (IF Own(Meshes[i], f) = c THEN Q(f) ELSE 0) - (IF f <= NI(Meshes[i]) /\ Meshes[i].nei[f] = c THEN Q(f) ELSE 0), FacesOf[i][c + 1])

(* ---- the field and its boundary ---- *)
Order == IF "calculated" \in Acts THEN <<"fixedValue", "calculated", "fixedGradient", "extrapolated">> ELSE <<"fixedValue", "fixedGradient", "extrapolated">>
Conditions(m, c, d) == [p \in 1..NPatches(m) |-> [t |-> Order[((p * d + c) % Len(Order)) + 1], v |-> ((c * p) % 5) - 2]]
Cond(b) == cur.bc[PatchT[cur.m][b]]
BVal(b) == LET p == Cond(b)  y == cur.v[M.bc[b] + 1] IN
           CASE p.t = "fixedValue" -> p.v [] p.t = "fixedGradient" -> y + p.v * M.bd[b] [] p.t = "extrapolated" -> y [] OTHER -> p.v
VF(b) == IF Cond(b).t = "fixedGradient" THEN 0 ELSE 1
RV(b) == IF Cond(b).t = "extrapolated" THEN cur.v[M.bc[b] + 1] ELSE Cond(b).v
RG(b) == Cond(b).v
(* ---- faces ---- *)
Linear(f) == IF f > NI(M) THEN M.dw * BVal(f - NI(M))
             ELSE W[cur.m][f] * cur.v[M.own[f] + 1] + (M.dw - W[cur.m][f]) * cur.v[M.nei[f] + 1]      \* * dw
Upwind(f) == IF f > NI(M) THEN BVal(f - NI(M)) ELSE IF cur.flux[f] >= 0 THEN cur.v[M.own[f] + 1] ELSE cur.v[M.nei[f] + 1]
Normal(f) == O[cur.m][f] * ((IF f > NI(M) THEN BVal(f - NI(M)) ELSE cur.v[M.nei[f] + 1]) - cur.v[Own(M, f) + 1])  \* * dn
AtFace(scheme, f) == IF scheme = "linear" THEN Linear(f) ELSE M.dw * Upwind(f)                      \* * dw

(* ---- explicit operators: numbers per cell, * V dw dn ---- *)
Cell(c) == c - 1
Ex(o, c) ==
  LET i == cur.m
      div(scheme) == LET Q(f) == cur.flux[f] * AtFace(scheme, f) IN M.dn * OutflowOf(i, c - 1, Q)
      int == LET Q(f) == cur.flux[f] IN M.dn * M.dw * OutflowOf(i, c - 1, Q)
      lap == LET Q(f) == cur.gam[f] * M.mag[f] * Normal(f) IN M.dw * OutflowOf(i, c - 1, Q)
  IN CASE o = "linear" -> div("linear") [] o = "upwind" -> div("upwind") [] o = "laplacian" -> lap
       [] o = "source" -> M.dn * M.dw * M.V[c] * cur.src[c] * cur.v[c] [] o = "integrate" -> int
       [] o = "ddt" -> M.dn * M.dw * M.V[c] * M.V[c] * 2 * (cur.v[c] - cur.old[c])                 \* dt = 1/2
ExOps == {"linear", "upwind", "laplacian", "source", "integrate", "ddt"}
ImOps == {"upwind", "laplacian", "source", "ddt"}
(* ---- implicit operators, * dn ---- *)
Pos(x) == IF x >= 0 THEN x ELSE 0
Neg(x) == IF x < 0 THEN x ELSE 0
InternalAt(c) == {f \in FacesOf[cur.m][c] : f <= NI(M)}
BoundaryAt(c) == {f - NI(M) : f \in {g \in FacesOf[cur.m][c] : g > NI(M)}}
Entry(o, i, j) ==
  LET own(f) == M.own[f] = i - 1
      \* what face f puts into row i, column of the neighbour of cell i across f, and into the diagonal
      off(f) == IF o = "laplacian" THEN cur.gam[f] * M.mag[f] * O[cur.m][f]
                ELSE M.dn * (IF own(f) THEN Neg(cur.flux[f]) ELSE -Pos(cur.flux[f]))
      dia(f) == IF o = "laplacian" THEN -cur.gam[f] * M.mag[f] * O[cur.m][f]
                ELSE M.dn * (IF own(f) THEN Pos(cur.flux[f]) ELSE -Neg(cur.flux[f]))
      bnd(b) == LET f == NI(M) + b IN
                IF o = "laplacian" THEN -cur.gam[f] * M.mag[f] * VF(b) * O[cur.m][f] ELSE M.dn * cur.flux[f] * (1 - VF(b))
      there(f) == (IF own(f) THEN M.nei[f] ELSE M.own[f]) = j - 1
  IN IF o = "source" THEN IF i = j THEN M.dn * M.V[i] * cur.src[i] ELSE 0
     ELSE IF o = "ddt" THEN IF i = j THEN M.dn * M.V[i] * 2 ELSE 0
     ELSE IF i = j THEN MapThenSumSet(dia, InternalAt(i)) + MapThenSumSet(bnd, BoundaryAt(i))
     ELSE MapThenSumSet(off, {f \in InternalAt(i) : there(f)})
Rhs(o, i) ==
  LET bnd(b) == LET f == NI(M) + b IN
                IF o = "laplacian" THEN cur.gam[f] * M.mag[f] * (VF(b) * O[cur.m][f] * RV(b) + M.dn * (1 - VF(b)) * RG(b))
                ELSE M.dn * cur.flux[f] * (VF(b) * RV(b) + (1 - VF(b)) * RG(b) * M.bd[b])
  IN CASE o = "source" -> 0 [] o = "ddt" -> M.dn * M.V[i] * 2 * cur.old[i] [] OTHER -> -MapThenSumSet(bnd, BoundaryAt(i))
=============================================================================
