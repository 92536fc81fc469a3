-------------------------- MODULE TimeIntegration --------------------------
(***************************************************************************)
(* Solving an equation: an expression of explicit and implicit terms, and  *)
(* possibly a time derivative, is integrated by forward Euler, backward    *)
(* Euler, or solved as it is.  The linear solver is the environment: it    *)
(* answers with any values x (the specification chooses them), and what it *)
(* is handed is checked.  The old field appears when it is first needed,   *)
(* as a copy of the field, and is the field after every step in time.      *)
(*                                                                         *)
(* A time step dt is dt[1] / dt[2].  The matrix and right-hand side of out *)
(* are scaled by dn * dt[1], new cell values by V dn dt[2].                *)
(***************************************************************************)
EXTENDS FvOps
CONSTANTS Execs, Vals, Scheds, Limit, Steps, Nums, Dts, Modes, Pick(_)
VARIABLES eq, \* sequence of terms [o |-> operator, ty |-> "exp" or "imp", n |-> coefficient]
          out, op
vars == <<cur, eq, out, op>>
Unit == [t |-> "unit", v |-> ""]
Label(n, k, a, s, e) == op' = [n |-> n, h |-> "", k |-> k, a |-> a, s |-> s, r |-> [e |-> e, v |-> Unit]]
None == [m |-> 0, n |-> 0]
Init == cur = None /\ eq = <<>> /\ out = <<>> /\ op = [n |-> "init"]
Busy == cur.m # 0
New(x, i, c, d, s) ==
  LET m == Meshes[i] IN
  /\ cur' = [m |-> i, n |-> 0, bc |-> Conditions(m, c, d), v |-> Gen(m.nC, c, 5), old |-> <<>>, flux |-> Gen(NF(m), c, 4),
             gam |-> Gen(NF(m), c + 2, 2), src |-> Gen(m.nC, c + 3, 3)]
  /\ eq' = <<>> /\ out' = <<>>
  /\ Label("new", "", <<x, i, cur'>>, s, "")
\* the user changes values between steps
SetTo(what, c, s) ==
  /\ Busy /\ out' = <<>> /\ UNCHANGED eq
  /\ cur' = CASE what = "v" -> [cur EXCEPT !.v = Gen(M.nC, c, 5)] [] what = "flux" -> [cur EXCEPT !.flux = Gen(NF(M), c, 4)]
              [] what = "gam" -> [cur EXCEPT !.gam = Gen(NF(M), c, 2)] [] what = "src" -> [cur EXCEPT !.src = Gen(M.nC, c, 3)]
  /\ Label("set", what, <<cur'[what]>>, s, "")
Available == [exp |-> {"linear", "upwind", "laplacian", "source", "integrate"}, imp |-> {"upwind", "laplacian", "source", "ddt"}]
Temporal == {i \in DOMAIN eq : eq[i].o = "ddt"}
Term(o, ty, n, s) ==
  /\ Busy /\ Len(eq) < Limit /\ o \in Available[ty] /\ UNCHANGED cur /\ out' = <<>>
  /\ (o = "ddt") => Temporal = {}
  /\ eq' = Append(eq, [o |-> o, ty |-> ty, n |-> n]) /\ Label("term", o, <<ty, n>>, s, "")
Clear(s) == Busy /\ eq # <<>> /\ eq' = <<>> /\ UNCHANGED cur /\ out' = <<>> /\ Label("clear", "", <<>>, s, "")

(* ---- one step ---- *)
Exps == {i \in DOMAIN eq : eq[i].ty = "exp"}
Imps == {i \in DOMAIN eq : eq[i].ty = "imp" /\ eq[i].o # "ddt"}
\* what the explicit terms add up to in cell c, * V dn
Source(c) == MapThenSumSet(LAMBDA i : eq[i].n * (Ex(eq[i].o, c) \div M.dw), Exps)
Old == IF cur.old = <<>> THEN cur.v ELSE cur.old
\* the system handed to the solver, * dn * dt[1]
Ddt(i, j, dt) == MapThenSumSet(LAMBDA k : IF i = j THEN eq[k].n * M.dn * M.V[i] * dt[2] ELSE 0, Temporal)
Matrix(dt) == [i \in 1..M.nC |-> [j \in 1..M.nC |-> dt[1] * MapThenSumSet(LAMBDA k : eq[k].n * Entry(eq[k].o, i, j), Imps) + Ddt(i, j, dt)]]
Right(dt) == [i \in 1..M.nC |-> dt[1] * (MapThenSumSet(LAMBDA k : eq[k].n * Rhs(eq[k].o, i), Imps) - Source(i)) + Ddt(i, i, dt) * Old[i]]
Count == cur.n < Steps
\* through dsl::solve, with an integrator of its own, with a copy of a new one, with one that is kept while steps and
\* equations come and go, with a copy of that one
How == {"solve", "object", "copy", "kept", "kept again", "copy of kept"}
\* explicit Euler: old - dt * source, all of it explicit, d/dt with coefficient one
Forward(dt, how, c, s) ==
  /\ Busy /\ Count /\ Imps = {} /\ Temporal # {} /\ \A i \in Temporal : eq[i].n = 1
  /\ LET new(k) == Old[k] * M.V[k] * M.dn * dt[2] - dt[1] * Source(k)
         unit(k) == M.V[k] * M.dn * dt[2]
         whole == \A k \in 1..M.nC : new(k) % unit(k) = 0 /\ new(k) < 500 * unit(k) /\ new(k) > -500 * unit(k)
         next == IF whole THEN [k \in 1..M.nC |-> new(k) \div unit(k)] ELSE Gen(M.nC, c, 5)
     IN /\ cur' = [cur EXCEPT !.n = @ + 1, !.v = next, !.old = next]
        /\ out' = [x |-> [k \in 1..M.nC |-> new(k)]]
        \* values that are no integers are replaced by integers in the field and the old field
        /\ Label("forward", how, <<dt, [k \in 1..M.nC |-> unit(k)], IF whole THEN <<>> ELSE next>>, s, "")
  /\ UNCHANGED eq
Backward(dt, how, c, s) ==
  /\ Busy /\ Count /\ Temporal # {} /\ UNCHANGED eq
  /\ LET x == Gen(M.nC, c, 6) IN
     /\ cur' = [cur EXCEPT !.n = @ + 1, !.v = x, !.old = x]
     /\ out' = [A |-> Matrix(dt), b |-> Right(dt)]
     /\ Label("backward", how, <<dt, M.dn * dt[1], x>>, s, "")
Steady(c, s) ==
  /\ Busy /\ Count /\ eq # <<>> /\ Temporal = {} /\ UNCHANGED eq
  /\ LET x == Gen(M.nC, c, 6) IN
     /\ cur' = [cur EXCEPT !.n = @ + 1, !.v = x]
     /\ out' = [A |-> Matrix(<<1, 1>>), b |-> Right(<<1, 1>>)]
     /\ Label("steady", "", <<M.dn, x>>, s, "")
\* nothing to solve, and integrators or solvers that do not exist, stop the program; a missing entry is reported to the caller
Stops(why, s) ==
  /\ Busy /\ UNCHANGED <<cur, eq>> /\ out' = <<>>
  /\ CASE why = "empty" -> eq = <<>> [] why \in {"integrator", "no type", "method", "two stages", "no method"} -> Temporal # {} [] why \in {"solver", "no solver"} -> Temporal = {} /\ eq # <<>>
  /\ Label("stops", why, <<>>, s, IF why \in {"no type", "no solver", "no method"} THEN "threw" ELSE "stopped")

Sampling == Pick({1, 2}) # {1, 2}
Now == IF ~Busy THEN {"new"} ELSE IF ~Count THEN {"new"}
       ELSE (IF "set" \in Acts THEN {"set"} ELSE {}) \cup (IF Len(eq) < Limit THEN {"term", "ddt"} \cup (IF Sampling THEN {"term2", "term3"} ELSE {}) ELSE {})
            \cup (IF eq # <<>> THEN {"clear"} ELSE {})
            \cup (Modes \cap (IF Temporal # {} THEN {"backward", "forward"} \cup (IF Sampling THEN {"forward2"} ELSE {}) ELSE IF eq # <<>> THEN {"steady"} ELSE {})) \cup {"stops"}
Go(do, s) ==
  \/ do = "new" /\ \E x \in Pick(Execs), i \in Pick(DOMAIN Meshes), c \in Pick(Vals), d \in Pick({1, 2}) : New(x, i, c, d, s)
  \/ do = "set" /\ \E w \in Pick({"v", "flux", "gam", "src"}), c \in Pick(Vals) : SetTo(w, c, s)
  \/ do \in {"term", "term2", "term3"} /\ \E ty \in Pick({"exp", "imp"}) : \E o \in Pick(Available[ty] \ {"ddt"}), n \in Pick(Nums) : Term(o, ty, n, s)
  \/ do = "ddt" /\ \E n \in Pick(Nums \cup {1}) : Term("ddt", "imp", n, s)
  \/ do = "clear" /\ Clear(s)
  \/ do \in {"forward", "forward2"} /\ \E dt \in Pick(Dts), how \in Pick(How), c \in Pick(Vals) : Forward(dt, how, c, s)
  \/ do = "backward" /\ \E dt \in Pick(Dts), how \in Pick(How), c \in Pick(Vals) : Backward(dt, how, c, s)
  \/ do = "steady" /\ \E c \in Pick(Vals) : Steady(c, s)
  \/ do = "stops" /\ \E why \in Pick({"empty", "integrator", "no type"} \cup (IF "steady" \in Modes THEN {"solver", "no solver"} ELSE {})
                                        \cup (IF "stages" \in Acts THEN {"method", "two stages", "no method"} ELSE {})) : Stops(why, s)
Next == \E s \in Pick(Scheds), do \in Pick(Now) : Go(do, s) \/ (Sampling /\ Busy /\ Count /\ Go("set", s)) \/ (Sampling /\ \E again \in Pick(Now) : Go(again, s))
Spec == Init /\ [][Next]_vars
St == <<cur, eq>>
Obs == IF ~Busy THEN [v |-> <<>>, b |-> <<>>, old |-> <<>>, out |-> out]
       ELSE [v |-> cur.v, b |-> [b \in 1..NB(M) |-> BVal(b)], old |-> cur.old, out |-> out]

(* ---- checked by TLC ---- *)
TypeOK == Busy => DOMAIN cur.v = 1..M.nC /\ (cur.old = <<>> \/ DOMAIN cur.old = 1..M.nC) /\ Cardinality(Temporal) <= 1
\* after a step in time the old field is the field; steps only change the values of the field
AfterStep == (op.n \in {"forward", "backward"}) => cur.old = cur.v
StepsOnlyV == [][(op'.n \in {"forward", "backward", "steady"}) => cur' = [cur EXCEPT !.n = @ + 1, !.v = cur'.v, !.old = cur'.old]]_vars
OldInTime == [][(cur'.m = cur.m /\ op'.n # "new" /\ cur'.m # 0 /\ cur'.old # cur.old) => op'.n \in {"forward", "backward"}]_vars
\* a fixed point of an explicit step solves the implicit system made of the same terms, for orthogonal boundaries
FixedPoint == (Busy /\ eq # <<>> /\ Straight[cur.m] /\ \A i \in DOMAIN eq : eq[i].ty = "imp" /\ eq[i].o \in {"upwind", "laplacian", "source"}) =>
  \A i \in 1..M.nC : MapThenSumSet(LAMBDA j : Matrix(<<1, 1>>)[i][j] * cur.v[j], 1..M.nC) - Right(<<1, 1>>)[i]
     = MapThenSumSet(LAMBDA k : eq[k].n * (Ex(eq[k].o, i) \div M.dw), Imps)
=============================================================================
