----------------------------- MODULE MeshCheck -----------------------------
(* The generated meshes are what the specifications take them for. *)
EXTENDS MeshBase
CONSTANTS Meshes, MustClose
VARIABLE i
Init == i = 0
Next == i < Len(Meshes) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Sound == i > 0 => WellFormed(Meshes[i]) /\ (i \in MustClose => Closed(Meshes[i]))
=============================================================================
