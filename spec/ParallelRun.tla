----------------------------- MODULE ParallelRun -----------------------------
(***************************************************************************)
(* One launch, step by step: Workers take indices of [0, N) in any order,  *)
(* an iteration reads, then writes (two steps, so that iterations really   *)
(* overlap), partial sums are joined in any order.  Body "own": iteration  *)
(* i writes only cell i.  Body "atomic": iterations add to shared cells    *)
(* with an atomic add.  Body "plain": the same without atomicity - the     *)
(* negative control, for which TLC must find the lost update.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Workers, N, Body,
          Target            \* iteration -> cell it adds to (bodies "atomic", "plain")
VARIABLES todo, at, tmp, cell, part, joined
vars == <<todo, at, tmp, cell, part, joined>>
Idx == 0..(N - 1)
Free == N                   \* a worker that executes nothing
Init == /\ todo = Idx /\ at = [w \in Workers |-> Free] /\ tmp = [w \in Workers |-> 0]
        /\ cell = [i \in Idx |-> 0] /\ part = [w \in Workers |-> 0] /\ joined = [w \in Workers |-> FALSE]
Tgt(i) == IF Body = "own" THEN i ELSE Target[i]
Start(w) == /\ at[w] = Free /\ ~joined[w]
            /\ \E i \in todo : /\ todo' = todo \ {i} /\ at' = [at EXCEPT ![w] = i]
                               /\ tmp' = [tmp EXCEPT ![w] = cell[Tgt(i)]]
            /\ UNCHANGED <<cell, part, joined>>
Finish(w) == /\ at[w] # Free
             /\ cell' = [cell EXCEPT ![Tgt(at[w])] = IF Body = "atomic" THEN @ + at[w] + 1 ELSE tmp[w] + at[w] + 1]
             /\ part' = [part EXCEPT ![w] = @ + at[w] + 1]
             /\ at' = [at EXCEPT ![w] = Free]
             /\ UNCHANGED <<todo, tmp, joined>>
Join(w) == todo = {} /\ at[w] = Free /\ joined' = [joined EXCEPT ![w] = TRUE] /\ UNCHANGED <<todo, at, tmp, cell, part>>
Next == \E w \in Workers : Start(w) \/ Finish(w) \/ Join(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == \A w \in Workers : joined[w]
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
Want(c) == SumOver({i \in Idx : Tgt(i) = c}, [i \in Idx |-> i + 1])
\* whatever the schedule, the outcome is the one of the sequential loop
Deterministic == Done => \A c \in Idx : cell[c] = Want(c)
Reduced == Done => SumOver(Workers, part) = (N * (N + 1)) \div 2
Terminates == <>Done
=============================================================================
