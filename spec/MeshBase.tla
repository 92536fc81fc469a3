------------------------------ MODULE MeshBase ------------------------------
(***************************************************************************)
(* Meshes as data, and the functions of a mesh that the finite-volume      *)
(* specifications share.  A mesh is a record of integers                   *)
(*   nC           number of cells (named 0..nC-1)                          *)
(*   own, nei     owner and neighbour cell of every internal face          *)
(*   bc           cell of every boundary face                              *)
(*   off          patch p is the boundary faces off[p]..off[p+1]-1 (from 0)*)
(*   V            cell volumes                                             *)
(*   sf, mag      area vectors of all faces (internal first), their norms  *)
(*   C, cf        cell and face centres                                    *)
(*   bd           distance boundary face - cell (1 / delta coefficient)    *)
(*   dl           distances cell - neighbour cell or cell - boundary face  *)
(*   dw, dn       common denominators of the weights and of the            *)
(*                non-orthogonal delta coefficients                        *)
(* Faces are counted from 1 here: 1..NI internal, NI+1..NF boundary.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
NI(m) == Len(m.nei)
NB(m) == Len(m.bc)
NF(m) == NI(m) + NB(m)
Cells(m) == 0..(m.nC - 1)
Internal(m, f) == f <= NI(m)
Own(m, f) == IF f <= NI(m) THEN m.own[f] ELSE m.bc[f - NI(m)]
Faces(m, c) == {f \in 1..NF(m) : Own(m, f) = c \/ (f <= NI(m) /\ m.nei[f] = c)}
NPatches(m) == Len(m.off) - 1
\* the patch of boundary face b (from 1); patches may be empty
PatchOf(m, b) == CHOOSE p \in 1..NPatches(m) : m.off[p] < b /\ b <= m.off[p + 1]
\* what leaves cell c through its faces
Outflow(m, c, Q(_)) == MapThenSumSet(LAMBDA f : (IF Own(m, f) = c THEN Q(f) ELSE 0)
                                              - (IF f <= NI(m) /\ m.nei[f] = c THEN Q(f) ELSE 0), Faces(m, c))
Abs(x) == IF x < 0 THEN -x ELSE x
Larger(x, y) == IF x > y THEN x ELSE y
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
IsRoot(r, x) == r >= 0 /\ r * r = x
Far(m, f) == IF f <= NI(m) THEN m.C[m.nei[f] + 1] ELSE m.cf[f]
Delta(m, f) == Sub(Far(m, f), m.C[Own(m, f) + 1])
\* interpolation weight of the owner, as <<numerator, denominator>>
Weight(m, f) ==
  IF f > NI(m) THEN <<1, 1>>
  ELSE LET o == Abs(Dot(m.sf[f], Sub(m.cf[f], m.C[m.own[f] + 1])))
           n == Abs(Dot(m.sf[f], Sub(m.C[m.nei[f] + 1], m.cf[f])))
       IN IF o + n = 0 THEN <<1, 2>> ELSE <<n, o + n>>
DeltaCoeff(m, f) == <<1, m.dl[f]>>
\* 1 / max(n . d, 0.05 |d|)
NonOrth(m, f) == <<20 * m.mag[f], Larger(20 * Dot(m.sf[f], Delta(m, f)), m.mag[f] * m.dl[f])>>
WellFormed(m) ==
  /\ m.nC > 0 /\ Len(m.own) = NI(m) /\ Len(m.V) = m.nC /\ Len(m.C) = m.nC
  /\ Len(m.sf) = NF(m) /\ Len(m.mag) = NF(m) /\ Len(m.cf) = NF(m) /\ Len(m.bd) = NB(m)
  /\ m.off[1] = 0 /\ m.off[Len(m.off)] = NB(m) /\ \A p \in 1..NPatches(m) : m.off[p] <= m.off[p + 1]
  /\ \A f \in 1..NI(m) : m.own[f] \in Cells(m) /\ m.nei[f] \in Cells(m) /\ m.own[f] # m.nei[f]
  /\ \A b \in 1..NB(m) : m.bc[b] \in Cells(m) /\ m.bd[b] > 0
  /\ \A c \in 1..m.nC : m.V[c] > 0
  /\ \A f \in 1..NF(m) : IsRoot(m.mag[f], Dot(m.sf[f], m.sf[f])) /\ m.mag[f] > 0
                        /\ IsRoot(m.dl[f], Dot(Delta(m, f), Delta(m, f))) /\ m.dl[f] > 0
  /\ \A f \in 1..NF(m) : m.dw % Weight(m, f)[2] = 0
Closed(m) == \A c \in Cells(m) : \A k \in 1..3 : LET Q(f) == m.sf[f][k] IN Outflow(m, c, Q) = 0
=============================================================================
