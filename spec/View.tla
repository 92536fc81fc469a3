-------------------------------- MODULE View --------------------------------
(***************************************************************************)
(* Bounds-checked views (debug builds).  An access outside the view ends   *)
(* the program, or, when the view is told not to, records the FIRST        *)
(* offending index; accesses inside the view read and write exactly the    *)
(* addressed element and never raise anything.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Sizes,     \* lengths of views offered (>= 1, as documented)
          MaxIdx, Vals, Debug, Acts, Pick(_)
VARIABLES size, mem, fail, abort, alive, op
vars == <<size, mem, fail, abort, alive, op>>
Unit == [t |-> "unit", v |-> ""]
R(e, v) == [e |-> e, v |-> v]
Ok == R("", Unit)
Num(n) == R("", [t |-> "int", v |-> ToString(n)])
Label(n, a, r) == op' = [n |-> n, h |-> "", k |-> "", a |-> a, r |-> r]
Zero == [i \in 0..MaxIdx |-> 0]

Init == size = 0 /\ mem = Zero /\ fail = 0 /\ abort = TRUE /\ alive = TRUE /\ op = [n |-> "init"]

Make(s, how) == /\ alive /\ size' = s /\ fail' = 0 /\ abort' = TRUE /\ UNCHANGED <<mem, alive>>
                /\ Label("make", <<s, how>>, Ok)
SetAbort(b) == /\ alive /\ size > 0 /\ abort' = b /\ UNCHANGED <<size, mem, fail, alive>> /\ Label("setAbort", <<b>>, Ok)
Read(i) == /\ alive /\ size > 0 /\ i < size /\ UNCHANGED <<size, mem, fail, abort, alive>>
           /\ Label("read", <<i>>, Num(mem[i]))
Write(i, v) == /\ alive /\ size > 0 /\ i < size /\ mem' = [mem EXCEPT ![i] = v]
               /\ UNCHANGED <<size, fail, abort, alive>>
               /\ Label("write", <<i, v>>, Ok)
Outside(i) == /\ Debug /\ ("die" \in Acts \/ ~abort) /\ alive /\ size > 0 /\ i >= size
              /\ UNCHANGED <<size, mem, abort>>
              /\ IF abort THEN alive' = FALSE /\ UNCHANGED fail /\ Label("outside", <<i>>, R("aborted", Unit))
                 ELSE fail' = (IF fail = 0 THEN i ELSE fail) /\ UNCHANGED alive /\ Label("outside", <<i>>, Ok)
Next == \/ \E s \in Pick(Sizes), how \in Pick({"span", "pointer", "vector", "copy"}) : Make(s, how)
        \/ \E b \in Pick(BOOLEAN) : SetAbort(b)
        \/ \E i \in Pick(0..MaxIdx) : Read(i) \/ Outside(i) \/ \E v \in Pick(Vals) : Write(i, v)
Spec == Init /\ [][Next]_vars
St == [size |-> size, mem |-> mem, fail |-> fail, abort |-> abort, alive |-> alive]
Obs == [mem |-> [i \in 1..(MaxIdx + 1) |-> mem[i - 1]], fail |-> fail, alive |-> alive]
FirstFailureStays == [][ fail # 0 /\ op'.n # "make" => fail' = fail ]_vars
InsideIsSilent == [][ op'.n \in {"read", "write"} => fail' = fail /\ alive' ]_vars
OutsideIsNoticed == [][ op'.n = "outside" => ~alive' \/ fail' # 0 ]_vars
NothingAfterAbort == [][ alive ]_vars
=============================================================================
