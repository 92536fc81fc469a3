-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Meshes (factories, getters, patches) and what is derived from a mesh:   *)
(* the cell-to-face stencil, the sparsity pattern of the linear system and *)
(* the geometric coefficients.  Every call is a function of the mesh:      *)
(* neither the executor x nor the schedule s shows in a result.            *)
(***************************************************************************)
EXTENDS MeshBase, SequencesExt
CONSTANTS Meshes, Sizes, Execs, Scheds, Acts, Pick(_)
VARIABLES out, op
vars == <<out, op>>
Label(n, a, s) == op' = [n |-> n, h |-> "", k |-> "", a |-> a, s |-> s, r |-> [e |-> "", v |-> [t |-> "unit", v |-> ""]]]
Init == out = <<>> /\ op = [n |-> "init"]
M(i) == Meshes[i]
X(a) == <<a, 0, 0>>

(* ---- factories: lengths in units of 1/(2 n), areas of 1, volumes of 1/n ---- *)
Line(n) ==
  [nC |-> n, own |-> [f \in 1..(n - 1) |-> f - 1], nei |-> [f \in 1..(n - 1) |-> f], bc |-> <<0, n - 1>>, off |-> <<0, 1, 2>>,
   V |-> [c \in 1..n |-> 1], sf |-> [f \in 1..(n + 1) |-> X(IF f = n THEN -1 ELSE 1)], mag |-> [f \in 1..(n + 1) |-> 1],
   C |-> [c \in 1..n |-> X(2 * c - 1)],
   cf |-> [f \in 1..(n + 1) |-> X(IF f = n THEN 0 ELSE IF f = n + 1 THEN 2 * n ELSE 2 * f)], bd |-> <<1, 1>>,
   dl |-> [f \in 1..(n + 1) |-> IF f < n THEN 2 ELSE 1], dw |-> 2, dn |-> 2]
Square ==
  [nC |-> 1, own |-> <<>>, nei |-> <<>>, bc |-> <<0, 0, 0, 0>>, off |-> <<0, 1, 2, 3, 4>>, V |-> <<1>>,
   sf |-> <<<<-1, 0, 0>>, <<0, 1, 0>>, <<1, 0, 0>>, <<0, -1, 0>>>>, mag |-> <<1, 1, 1, 1>>, C |-> <<<<1, 1, 0>>>>,
   cf |-> <<<<0, 1, 0>>, <<1, 2, 0>>, <<2, 1, 0>>, <<1, 0, 0>>>>, bd |-> <<1, 1, 1, 1>>, dl |-> <<1, 1, 1, 1>>, dw |-> 1, dn |-> 1]
Whole(m) == [nC |-> m.nC, own |-> m.own \o m.bc, nei |-> m.nei, V |-> m.V, C |-> m.C, sf |-> m.sf, cf |-> m.cf, mag |-> m.mag,
             n |-> <<m.nC, NI(m), NB(m), NPatches(m), NF(m)>>, off |-> m.off]
\* what the boundary mesh says of the boundary faces lo+1..hi
Slice(m, lo, hi) ==
  LET B(Q(_)) == [i \in 1..(hi - lo) |-> Q(lo + i)]
      F(b) == NI(m) + b
      Fc(b) == m.bc[b]     Cf(b) == m.cf[F(b)]    Sf(b) == m.sf[F(b)]    Mag(b) == m.mag[F(b)]
      Nf(b) == Sf(b)       De(b) == Delta(m, F(b))   Bd(b) == 1          W(b) == 1
  IN [fc |-> B(Fc), cf |-> B(Cf), sf |-> B(Sf), mag |-> B(Mag), nf |-> B(Nf), delta |-> B(De), dc |-> B(Bd), w |-> B(W)]
Cn(m, lo, hi) == [i \in 1..(hi - lo) |-> m.C[m.bc[lo + i] + 1]]
AllPatches(m) == [p \in 1..NPatches(m) |-> Slice(m, m.off[p], m.off[p + 1])]
Scale(m) == [mag |-> m.mag, bd |-> m.bd]
MakeLine(x, n, s) == out' = [whole |-> Whole(Line(n)), patches |-> AllPatches(Line(n)), all |-> Slice(Line(n), 0, 2),
                             cn |-> Cn(Line(n), 0, 2), points |-> Line(n).cf]
                     /\ Label("line", <<x, n, Scale(Line(n))>>, s)
MakeSquare(x, s) == out' = [whole |-> Whole(Square), patches |-> AllPatches(Square), all |-> Slice(Square, 0, 4)]
                    /\ Label("square", <<x, Scale(Square)>>, s)
Given(x, i, s) == out' = [whole |-> Whole(M(i)), patches |-> AllPatches(M(i)), all |-> Slice(M(i), 0, NB(M(i))), cn |-> Cn(M(i), 0, NB(M(i)))]
                  /\ Label("given", <<x, i, Scale(M(i))>>, s)

(* ---- topology (tables of constants: TLC computes them once) ---- *)
SortedFaces(m, c) == LET l == SetToSortSeq(Faces(m, c), <) IN [k \in 1..Len(l) |-> l[k] - 1]
Stn == [i \in DOMAIN Meshes |-> [c \in 1..Meshes[i].nC |-> SortedFaces(Meshes[i], c - 1)]]
Stencil(x, i, s) == out' = Stn[i] /\ Label("stencil", <<x, i>>, s)
RowSize(m, c) == 1 + Cardinality({f \in Faces(m, c) : Internal(m, f)})
RECURSIVE Ptrs(_, _, _)
Ptrs(m, c, at) == <<at>> \o (IF c = m.nC THEN <<>> ELSE Ptrs(m, c + 1, at + RowSize(m, c)))
Ptr == [i \in DOMAIN Meshes |-> Ptrs(Meshes[i], 0, 0)]
\* an entry for every cell and two for every internal face, each found where the offsets say, none used twice
Sparsity(x, i, k, s) ==
  LET m == M(i) IN
  /\ out' = [rows |-> m.nC, nnz |-> m.nC + 2 * NI(m), ptr |-> Ptr[i], atOwner |-> m.nei, atNeighbour |-> m.own,
             atDiag |-> [c \in 1..m.nC |-> c - 1], hits |-> [e \in 1..(m.nC + 2 * NI(m)) |-> 1]]
  /\ Label("sparsity", <<x, i, k>>, s)

(* ---- geometry ---- *)
W == [i \in DOMAIN Meshes |-> [f \in 1..NF(Meshes[i]) |-> Weight(Meshes[i], f)]]
D == [i \in DOMAIN Meshes |-> [f \in 1..NF(Meshes[i]) |-> DeltaCoeff(Meshes[i], f)]]
O == [i \in DOMAIN Meshes |-> [f \in 1..NF(Meshes[i]) |-> NonOrth(Meshes[i], f)]]
Part(t, k) == [f \in DOMAIN t |-> t[f][k]]
Geometry(x, i, k, s) ==
  /\ out' = [w |-> Part(W[i], 1), d |-> Part(D[i], 1), o |-> Part(O[i], 1)]
  /\ Label("geometry", <<x, i, k, [w |-> Part(W[i], 2), d |-> Part(D[i], 2), o |-> Part(O[i], 2)]>>, s)

Next == \E s \in Pick(Scheds), x \in Pick(Execs) :
  \/ "factory" \in Acts /\ \E n \in Pick(Sizes) : MakeLine(x, n, s)
  \/ "factory" \in Acts /\ MakeSquare(x, s)
  \/ \E i \in Pick(DOMAIN Meshes), k \in Pick(0..3) :
       \/ "factory" \in Acts /\ Given(x, i, s)
       \/ "stencil" \in Acts /\ Stencil(x, i, s)
       \/ "sparsity" \in Acts /\ Sparsity(x, i, k, s)
       \/ "geometry" \in Acts /\ Geometry(x, i, k, s)
Spec == Init /\ [][Next]_vars
St == IF op.n = "init" THEN 0 ELSE 0
Obs == out
(* ---- checked by TLC ---- *)
\* every cell is closed: its outward areas add up to nothing; every boundary face lies in exactly one patch
Sound(m) == /\ WellFormed(m) /\ Closed(m)
            /\ \A b \in 1..NB(m) : Cardinality({p \in 1..NPatches(m) : m.off[p] < b /\ b <= m.off[p + 1]}) = 1
            /\ \A f \in 1..NF(m) : Dot(m.sf[f], Delta(m, f)) > 0
Divergence(m) == \* the volume of a cell is a third of what the field x carries out of it
  \A c \in Cells(m) : LET Q(f) == Dot(m.sf[f], m.cf[f]) IN Outflow(m, c, Q) > 0
FactoriesSound == /\ op.n = "line" => Sound(Line(op.a[2])) /\ Divergence(Line(op.a[2]))
                  /\ op.n = "square" => Sound(Square) /\ Divergence(Square)
\* every internal face is in two segments of the stencil, every boundary face in one
FacesCounted == op.n = "stencil" =>
  LET m == M(op.a[2])
      n(f) == Cardinality({c \in {Own(m, f), IF f <= NI(m) THEN m.nei[f] ELSE Own(m, f)} : \E k \in DOMAIN out[c + 1] : out[c + 1][k] = f - 1})
      len(c) == Len(out[c])
  IN /\ \A f \in 1..NF(m) : n(f) = IF Internal(m, f) THEN 2 ELSE 1
     /\ MapThenSumSet(len, DOMAIN out) = 2 * NI(m) + NB(m)
RowsFilled == op.n = "sparsity" => out.ptr[1] = 0 /\ out.ptr[Len(out.ptr)] = out.nnz /\ Len(out.ptr) = out.rows + 1
WeightsBetween == op.n = "geometry" => \A f \in DOMAIN out.w : 0 <= out.w[f] /\ out.w[f] <= op.a[4].w[f]
\* along orthogonal faces both coefficients are the same
Bounded == op.n = "geometry" => \A f \in DOMAIN out.w : out.o[f] > 0 /\ op.a[4].o[f] > 0 /\ out.d[f] = 1
=============================================================================
