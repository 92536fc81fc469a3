---------------------------- MODULE FiniteVolume ----------------------------
(***************************************************************************)
(* Interpolation, gradients and the finite-volume operators, explicit and  *)
(* implicit.  A case is a mesh with a cell field phi (its conditions       *)
(* corrected), a flux and a diffusion coefficient per face, a source       *)
(* coefficient and an old value per cell.  Explicit operators add to acc,  *)
(* implicit ones to the matrix mat and the right-hand side rhs; the        *)
(* convention is  mat x - rhs = V acc.                                     *)
(*                                                                         *)
(* All numbers are integers: acc[c] stands for acc[c] / (V[c] dw dn),      *)
(* mat and rhs for mat / dn (see MeshBase for dw and dn).                  *)
(***************************************************************************)
EXTENDS FvOps
CONSTANTS Execs, Vals, Scheds, Limit, Pick(_)
VARIABLES acc, mat, rhs, out, op
vars == <<cur, acc, mat, rhs, out, op>>
Unit == [t |-> "unit", v |-> ""]
Label(n, k, a, s, e) == op' = [n |-> n, h |-> "", k |-> k, a |-> a, s |-> s, r |-> [e |-> e, v |-> Unit]]
None == [m |-> 0, n |-> 0]
Init == cur = None /\ acc = <<>> /\ mat = <<>> /\ rhs = <<>> /\ out = <<>> /\ op = [n |-> "init"]
New(x, i, c, d, s) ==
  LET m == Meshes[i] IN
  /\ cur' = [m |-> i, n |-> 0, bc |-> Conditions(m, c, d), v |-> Gen(m.nC, c, 5), old |-> Gen(m.nC, c + 1, 5), flux |-> Gen(NF(m), c, 4),
             gam |-> Gen(NF(m), c + 2, 2), src |-> Gen(m.nC, c + 3, 3)]
  /\ acc' = [k \in 1..m.nC |-> 0] /\ mat' = [k \in 1..m.nC |-> [j \in 1..m.nC |-> 0]] /\ rhs' = [k \in 1..m.nC |-> 0] /\ out' = <<>>
  /\ Label("new", "", <<x, i, cur', m.dn, [k \in 1..m.nC |-> m.V[k] * m.dw * m.dn]>>, s, "")
Set(what, c, s) ==
  /\ cur.m # 0
  /\ cur' = CASE what = "v" -> [cur EXCEPT !.v = Gen(M.nC, c, 5)] [] what = "old" -> [cur EXCEPT !.old = Gen(M.nC, c, 5)]
              [] what = "flux" -> [cur EXCEPT !.flux = Gen(NF(M), c, 4)] [] what = "gam" -> [cur EXCEPT !.gam = Gen(NF(M), c, 2)]
              [] what = "src" -> [cur EXCEPT !.src = Gen(M.nC, c, 3)]
  /\ UNCHANGED <<acc, mat, rhs>> /\ out' = <<>>
  /\ Label("set", what, <<cur'[what]>>, s, "")
Reset(s) == /\ cur.m # 0 /\ cur' = [cur EXCEPT !.n = 0] /\ acc' = [k \in DOMAIN acc |-> 0] /\ mat' = [k \in DOMAIN mat |-> [j \in DOMAIN mat |-> 0]]
            /\ rhs' = [k \in DOMAIN rhs |-> 0] /\ out' = <<>> /\ Label("reset", "", <<>>, s, "")

Routes == {"tokens", "dict", "build", "schemes", "model"}
\* a coefficient: a number, a field, or both
Coefs == {[n |-> 1, f |-> <<>>], [n |-> -2, f |-> <<>>], [n |-> 1, f |-> <<1>>], [n |-> -1, f |-> <<2>>]}
CoefField(k) == IF k.f = <<>> THEN <<>> ELSE Gen(M.nC, k.f[1], 2)
Coef(k, c) == k.n * (IF k.f = <<>> THEN 1 ELSE CoefField(k)[c])
Busy == cur.m # 0 /\ cur.n < Limit
Explicit(o, r, k, s) ==
  /\ Busy /\ cur' = [cur EXCEPT !.n = @ + 1]
  /\ acc' = [c \in DOMAIN acc |-> acc[c] + Coef(k, c) * Ex(o, c)]
  /\ UNCHANGED <<mat, rhs>> /\ out' = <<>> /\ Label("explicit", o, <<r, k.n, CoefField(k)>>, s, "")

(* ---- implicit operators ---- *)
Implicit(o, r, k, s) ==
  /\ Busy /\ "calculated" \notin Acts /\ cur' = [cur EXCEPT !.n = @ + 1]
  /\ mat' = [i \in DOMAIN mat |-> [j \in DOMAIN mat |-> mat[i][j] + Coef(k, i) * Entry(o, i, j)]]
  /\ rhs' = [i \in DOMAIN rhs |-> rhs[i] + Coef(k, i) * Rhs(o, i)]
  /\ UNCHANGED acc /\ out' = <<>> /\ Label("implicit", o, <<r, k.n, CoefField(k)>>, s, "")

(* ---- functions that return their result ---- *)
Kept == UNCHANGED <<cur, acc, mat, rhs>>
AllFaces(Q(_)) == [f \in 1..NF(M) |-> Q(f)]
Interpolate(scheme, r, s) ==
  /\ cur.m # 0 /\ Kept /\ LET Q(f) == AtFace(scheme, f) IN out' = AllFaces(Q)
  /\ Label("interpolate", scheme, <<r, <<M.dw>>>>, s, "")
FaceGradient(r, s) == cur.m # 0 /\ Kept /\ out' = AllFaces(Normal) /\ Label("normal", "", <<r, <<M.dn>>>>, s, "")
Weights(s) == cur.m # 0 /\ Kept /\ out' = [f \in 1..NF(M) |-> W[cur.m][f]] /\ Label("weights", "", <<"", <<M.dw>>>>, s, "")
Coefficients(s) == cur.m # 0 /\ Kept /\ out' = [f \in 1..NF(M) |-> O[cur.m][f]] /\ Label("coeffs", "", <<"", <<M.dn>>>>, s, "")
\* a scheme that depends on the direction of the flux cannot do without a flux
NoFlux(what, s) == cur.m # 0 /\ Kept /\ out' = <<>> /\ Label("noflux", what, <<>>, s, "stopped")
GradOf(c) == [k \in 1..3 |-> LET Q(f) == M.sf[f][k] * Linear(f) IN OutflowOf(cur.m, c - 1, Q)]
Gradient(r, s) == cur.m # 0 /\ Kept /\ out' = [c \in 1..M.nC |-> GradOf(c)] /\ Label("grad", "", <<r, [c \in 1..M.nC |-> M.V[c] * M.dw]>>, s, "")
\* divergence and laplacian as a field of their own
Field(o, r, s) ==
  /\ cur.m # 0 /\ Kept /\ out' = [c \in 1..M.nC |-> Ex(o, c) \div (IF o = "laplacian" THEN M.dw ELSE M.dn)]
  /\ Label("field", o, <<r, [c \in 1..M.nC |-> M.V[c] * (IF o = "laplacian" THEN M.dn ELSE M.dw)]>>, s, "")
\* the largest Courant number: half of what crosses the faces of a cell, per volume and time step
Crossing(c) == MapThenSumSet(LAMBDA f : Abs(cur.flux[f]), FacesOf[cur.m][c])
Worst == CHOOSE c \in 1..M.nC : \A e \in 1..M.nC : Crossing(c) * M.V[e] >= Crossing(e) * M.V[c]
Courant(dt, s) == cur.m # 0 /\ Kept /\ out' = <<Crossing(Worst) * dt>> /\ Label("courant", "", <<dt, <<2 * M.V[Worst]>>>>, s, "")

\* what can happen now (chosen first, so that sampling evaluates one action only)
Now == IF cur.m = 0 THEN {"new"}
       ELSE {"new", "set", "v"} \cup (IF "grad" \in Acts THEN {"grad"} ELSE {})
            \cup (IF "schemes" \in Acts THEN {"interpolate", "interpolate2", "normal", "weights", "noflux"} ELSE {})
            \cup (IF "explicit" \in Acts THEN {"field", "courant"} ELSE {})
            \cup (IF cur.n >= Limit THEN {"reset"}
                  ELSE (IF "explicit" \in Acts THEN {"explicit", "explicit2"} ELSE {}) \cup (IF "implicit" \in Acts THEN {"implicit", "implicit2"} ELSE {}))
Next == \E s \in Pick(Scheds), c \in Pick(Vals), r \in Pick(Routes), do \in Pick(Now) :
  \/ do = "new" /\ \E x \in Pick(Execs), i \in Pick(DOMAIN Meshes), d \in Pick({1, 2}) : New(x, i, c, d, s)
  \/ do = "set" /\ \E w \in Pick({"v", "old", "flux", "gam", "src"}) : Set(w, c, s)
  \/ do = "v" /\ Set("v", c, s)
  \/ do \in {"interpolate", "interpolate2"} /\ \E k \in Pick({"linear", "upwind"}) : Interpolate(k, r, s)
  \/ do = "normal" /\ FaceGradient(r, s)
  \/ do = "weights" /\ \E k \in Pick({1, 2}) : (k = 1 /\ Weights(s)) \/ (k = 2 /\ Coefficients(s))
  \/ do = "noflux" /\ \E w \in Pick({"interpolate", "weight"}) : NoFlux(w, s)
  \/ do = "grad" /\ Gradient(r, s)
  \/ do = "field" /\ \E o \in Pick({"linear", "upwind", "laplacian"}) : Field(o, r, s)
  \/ do = "courant" /\ \E dt \in Pick({1, 3}) : Courant(dt, s)
  \/ do \in {"explicit", "explicit2"} /\ \E o \in Pick(ExOps), k \in Pick(Coefs) : Explicit(o, r, k, s)
  \/ do \in {"implicit", "implicit2"} /\ \E o \in Pick(ImOps), k \in Pick(Coefs) : Implicit(o, r, k, s)
  \/ do = "reset" /\ Reset(s)
Spec == Init /\ [][Next]_vars
St == <<cur, acc, mat, rhs>>
Obs == [acc |-> acc, mat |-> mat, rhs |-> rhs, out |-> out]

(* ---- checked by TLC ---- *)
TypeOK == cur.m # 0 => DOMAIN acc = 1..M.nC /\ DOMAIN mat = 1..M.nC /\ DOMAIN rhs = 1..M.nC
Sum(Q(_), S) == MapThenSumSet(Q, S)
\* what leaves one cell enters another: only the boundary remains
Conserves == (op.n \in {"explicit", "field"} /\ op.k \in {"linear", "upwind", "laplacian", "integrate"}) =>
  LET all(c) == Ex(op.k, c)
      edge(b) == LET f == NI(M) + b IN
                 CASE op.k = "laplacian" -> M.dw * cur.gam[f] * M.mag[f] * Normal(f) [] op.k = "integrate" -> M.dw * M.dn * cur.flux[f]
                   [] OTHER -> M.dn * cur.flux[f] * AtFace(op.k, f)
  IN Sum(all, 1..M.nC) = Sum(edge, 1..NB(M))
\* the implicit form of an operator, applied to the field itself, is its explicit form times the volume
Consistent == (op.n = "implicit" /\ (op.k = "laplacian" => Straight[cur.m])) =>
  \A i \in 1..M.nC : LET row(j) == Entry(op.k, i, j) * cur.v[j] IN
     (IF op.k = "ddt" THEN M.V[i] ELSE 1) * M.dw * (Sum(row, 1..M.nC) - Rhs(op.k, i)) = Ex(op.k, i)
\* rows of the laplacian away from the boundary add up to zero; the columns of the divergence too
RowSums == (op.n = "implicit" /\ op.k \in {"laplacian", "upwind"}) => \A i \in 1..M.nC :
   BoundaryAt(i) = {} => LET q(j) == IF op.k = "laplacian" THEN Entry(op.k, i, j) ELSE Entry(op.k, j, i) IN Sum(q, 1..M.nC) = 0
Symmetric == (op.n = "implicit" /\ op.k = "laplacian") => \A i, j \in 1..M.nC : Entry("laplacian", i, j) = Entry("laplacian", j, i)
\* interpolation stays between the two cells
Between == (op.n = "interpolate") => \A f \in 1..NI(M) :
   LET a == M.dw * cur.v[M.own[f] + 1]  e == M.dw * cur.v[M.nei[f] + 1] IN (a <= out[f] /\ out[f] <= e) \/ (e <= out[f] /\ out[f] <= a)
\* the gradient of a uniform field is zero on a closed mesh
Uniform == \A j \in 1..M.nC : cur.v[j] = cur.v[1]
FlatGradient == (op.n = "grad" /\ Closed(M) /\ Uniform /\ \A b \in 1..NB(M) : BVal(b) = cur.v[1]) => \A c \in 1..M.nC : out[c] = <<0, 0, 0>>
=============================================================================
