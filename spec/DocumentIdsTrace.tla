------------------------- MODULE DocumentIdsTrace -------------------------
(* Recorded creations, one event per document: [t, i, id] with the thread,  *)
(* its per-thread sequence number and the id the code generated.  A run is  *)
(* explained by DocumentIds iff every event takes an id nobody has taken.   *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json
CONSTANT TraceFile
Events == ndJsonDeserialize(TraceFile)
VARIABLES l, used, seq
TraceInit == l = 1 /\ used = {} /\ seq = <<>>
New == /\ l <= Len(Events)
       /\ LET e == Events[l] IN
          /\ e.id \notin used
          /\ used' = used \cup {e.id}
          /\ e.i = (IF e.t \in DOMAIN seq THEN seq[e.t] + 1 ELSE 1)
          /\ seq' = (e.t :> e.i) @@ seq
       /\ l' = l + 1
TraceSpec == TraceInit /\ [][New]_<<l, used, seq>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 d - 1 = Len(Events) \/ (PrintT(<<"REACHED", d>>) /\ FALSE)
=============================================================================
