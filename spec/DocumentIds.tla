---------------------------- MODULE DocumentIds ----------------------------
(***************************************************************************)
(* Identity generation under concurrency.  Threads create documents; each  *)
(* creation takes the next number and then publishes the document.  The    *)
(* take is ONE step (a fetch-and-add): splitting it into read and write    *)
(* (Atomic = FALSE) lets TLC find two documents with one id.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, PerThread, Atomic
VARIABLES ctr, pc, tmp, made
vars == <<ctr, pc, tmp, made>>

Init == /\ ctr = 0
        /\ pc = [t \in Threads |-> "idle"]
        /\ tmp = [t \in Threads |-> 0]
        /\ made = [t \in Threads |-> <<>>]

Take(t) == /\ Atomic /\ pc[t] = "idle" /\ Len(made[t]) < PerThread
           /\ tmp' = [tmp EXCEPT ![t] = ctr]
           /\ ctr' = ctr + 1
           /\ pc' = [pc EXCEPT ![t] = "publish"]
           /\ UNCHANGED made
Read(t) == /\ ~Atomic /\ pc[t] = "idle" /\ Len(made[t]) < PerThread
           /\ tmp' = [tmp EXCEPT ![t] = ctr]
           /\ pc' = [pc EXCEPT ![t] = "write"]
           /\ UNCHANGED <<ctr, made>>
Write(t) == /\ pc[t] = "write"
            /\ ctr' = tmp[t] + 1
            /\ pc' = [pc EXCEPT ![t] = "publish"]
            /\ UNCHANGED <<tmp, made>>
Publish(t) == /\ pc[t] = "publish"
              /\ made' = [made EXCEPT ![t] = Append(@, tmp[t])]
              /\ pc' = [pc EXCEPT ![t] = "idle"]
              /\ UNCHANGED <<ctr, tmp>>
Next == \E t \in Threads : Take(t) \/ Read(t) \/ Write(t) \/ Publish(t)
Spec == Init /\ [][Next]_vars

All == { <<t, i>> : t \in Threads, i \in 1..PerThread }
Has(x) == x[2] <= Len(made[x[1]])
Unique == \A x, y \in All : Has(x) /\ Has(y) /\ x # y => made[x[1]][x[2]] # made[y[1]][y[2]]
=============================================================================
