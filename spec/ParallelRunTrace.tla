--------------------------- MODULE ParallelRunTrace ---------------------------
(* A recorded launch sequence {"lo":..,"hi":..,"it":[indices in the order executed]} *)
EXTENDS Integers, Sequences, Json, TLC, TLCExt
CONSTANT TraceFile
TraceLog == ndJsonDeserialize(TraceFile)
VARIABLES l, left, pos
Launch(n) == TraceLog[n].lo..(TraceLog[n].hi - 1)
TraceInit == l = 1 /\ pos = 1 /\ left = IF Len(TraceLog) = 0 THEN {} ELSE Launch(1)
Iter == /\ l <= Len(TraceLog) /\ pos <= Len(TraceLog[l].it)
        /\ TraceLog[l].it[pos] \in left                   \* in the range and not done before
        /\ left' = left \ {TraceLog[l].it[pos]} /\ pos' = pos + 1 /\ UNCHANGED l
End == /\ l <= Len(TraceLog) /\ pos = Len(TraceLog[l].it) + 1 /\ left = {}   \* none left out
       /\ l' = l + 1 /\ pos' = 1 /\ left' = IF l < Len(TraceLog) THEN Launch(l + 1) ELSE {}
TraceSpec == TraceInit /\ [][Iter \/ End]_<<l, left, pos>>
Total[i \in 0..Len(TraceLog)] == IF i = 0 THEN 1 ELSE Total[i - 1] + Len(TraceLog[i].it) + 1
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 \/ d = Total[Len(TraceLog)]
                 \/ /\ PrintT(<<"REACHED", CHOOSE i \in 1..Len(TraceLog) : Total[i - 1] <= d /\ d < Total[i]>>)
                    /\ FALSE
=============================================================================
