------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* The assertion and fatal-error macros.  A program executes a sequence of *)
(* checks.  An active check evaluates its condition exactly once; if it    *)
(* does not hold, a fatal check ends the program with status 1 after       *)
(* writing a message (no later check runs), a throwing check throws        *)
(* NeoFOAMException with that message.  Debug checks are active in debug   *)
(* builds only and evaluate nothing otherwise.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Debug,      \* debug build
          Macros, Values, Acts, Pick(_)
VARIABLES alive, evals, ran, op
vars == <<alive, evals, ran, op>>
Unit == [t |-> "unit", v |-> ""]
Res(e, v) == [e |-> e, v |-> [t |-> "str", v |-> v]]
Label(n, a, r) == op' = [n |-> n, h |-> "", k |-> "", a |-> a, r |-> r]

IsDebug(m) == m \in {"DEBUG_ASSERT", "DEBUG_ASSERT_THROW", "DEBUG_ASSERT_EQUAL", "DEBUG_ASSERT_EQUAL_THROW"}
Throws(m) == m \in {"ASSERT_THROW", "DEBUG_ASSERT_THROW", "ASSERT_EQUAL_THROW", "DEBUG_ASSERT_EQUAL_THROW", "THROW"}
Always(m) == m \in {"THROW", "ERROR_EXIT"}
Active(m) == ~IsDebug(m) \/ Debug

Init == alive = TRUE /\ evals = 0 /\ ran = 0 /\ op = [n |-> "init"]

\* where: plain statement, or the unbraced branch of an if (with an else after it)
Check(m, a, b, where) ==
  LET holds == IF Always(m) THEN FALSE ELSE a = b
      reached == where # "skipped"
      ev == IF reached /\ Active(m) /\ ~Always(m) THEN 1 ELSE 0
      fails == reached /\ Active(m) /\ ~holds IN
  /\ alive
  /\ ran' = ran + 1
  /\ evals' = evals + ev
  /\ alive' = ~(fails /\ ~Throws(m))
  /\ Label("check", <<m, a, b, where>>,
       IF ~fails THEN Res("", ToString(ev))
       ELSE IF Throws(m) THEN Res("throws with message", ToString(ev))
       ELSE Res("exit 1 with message", ToString(ev)))

Next == \E m \in Pick(Macros), a \in Pick(Values), b \in Pick(Values), w \in Pick({"plain", "taken", "skipped"}) :
           Check(m, a, b, w)
Spec == Init /\ [][Next]_vars
St == [alive |-> alive, evals |-> evals, ran |-> ran]
Obs == [alive |-> alive]
Few == ran <= 2
NeverPast == [][ alive ]_vars                       \* nothing runs after a fatal check
FatalOnlyOnFailure == [][ alive' \/ (op'.a[2] # op'.a[3]) \/ Always(op'.a[1]) ]_vars
OnceAtMost == [][ evals' - evals <= 1 ]_vars
=============================================================================
