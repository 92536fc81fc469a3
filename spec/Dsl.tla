-------------------------------- MODULE Dsl --------------------------------
(***************************************************************************)
(* Coefficients, operators and expressions of the domain-specific          *)
(* language.  All are values: copies share nothing, and a product, sum or  *)
(* difference leaves its operands alone.  Only the fields they refer to    *)
(* are shared: evaluation reads what the fields hold at that time.         *)
(*                                                                         *)
(* A term is an operator with a coefficient n (a number, times the field f *)
(* if there is one), applied to the field x; b is what it was built with.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
CONSTANTS Handles, Execs, Atoms, Xs, Cs, Size, Vals, Nums, Bound, Terms, Scheds, Acts, Pick(_)
VARIABLES env, fld, out, op
vars == <<env, fld, out, op>>
Unit == [t |-> "unit", v |-> ""]
Label(n, h, k, a, s, e) == op' = [n |-> n, h |-> h, k |-> k, a |-> a, s |-> s, r |-> [e |-> e, v |-> Unit]]
None == [t |-> "none"]
Gen(c, k) == [i \in 1..Size |-> ((i * i * k + c * i + c) % 7) - 3]
Kinds == {"spatial", "temporal"}
Types == {"Explicit", "Implicit"}
Init == env = [h \in Handles |-> None] /\ fld = <<>> /\ out = <<>> /\ op = [n |-> "init"]
Started == fld # <<>>
Is(h, ts) == env[h].t \in ts
Ops == {h \in Handles : Is(h, Kinds)}
Coeffs == {h \in Handles : Is(h, {"coeff"})}
Exprs == {h \in Handles : Is(h, {"expr"})}
Used == Handles \ {h \in Handles : env[h] = None}

(* ---- meaning ---- *)
Coef(o) == [i \in 1..Size |-> o.n * (IF o.f = "" THEN 1 ELSE fld[o.f][i])]
Unscaled(o, i) == fld[o.x][i] * (1 + o.b)
Value(o, i) == Coef(o)[i] * Unscaled(o, i)
\* a temporal operator sees the time and the time step
At(o, i, t, dt) == IF o.t = "temporal" THEN Value(o, i) + Coef(o)[i] * (t + 10 * dt) ELSE Value(o, i)
OfType(q, ty) == SelectSeq(q, LAMBDA o : o.ty = ty)
Total(q, i, t, dt) == FoldLeft(LAMBDA z, o : z + At(o, i, t, dt), 0, q)
\* the dummy operators put their value on the diagonal and twice the value into the right-hand side
Parts(e) == IF e.t = "expr" THEN e ELSE IF e.t = "temporal" THEN [t |-> "expr", T |-> <<e>>, S |-> <<>>] ELSE [t |-> "expr", T |-> <<>>, S |-> <<e>>]
Join(a, b) == [t |-> "expr", T |-> Parts(a).T \o Parts(b).T, S |-> Parts(a).S \o Parts(b).S]
\* a coefficient times a coefficient: not with two fields
Clash(a, b) == a.f # "" /\ b.f # ""
Times(k, o) == [o EXCEPT !.n = @ * k.n, !.f = IF @ = "" THEN k.f ELSE @]
Scale(n, e) == IF e.t = "expr" THEN [e EXCEPT !.T = [i \in DOMAIN @ |-> Times([n |-> n, f |-> ""], @[i])], !.S = [i \in DOMAIN @ |-> Times([n |-> n, f |-> ""], @[i])]]
               ELSE Times([n |-> n, f |-> ""], e)
Small(e) == /\ e.t = "expr" => Len(e.T) + Len(e.S) <= Terms /\ \A q \in {e.T, e.S} : \A i \in DOMAIN q : q[i].n <= Bound /\ q[i].n >= -Bound
            /\ e.t \in Kinds \cup {"coeff"} => e.n <= Bound /\ e.n >= -Bound

(* ---- actions ---- *)
Put(h, e) == Small(e) /\ env' = [env EXCEPT ![h] = e] /\ UNCHANGED fld /\ out' = <<>>
Start(x, c, s) ==
  /\ ~Started /\ UNCHANGED env /\ out' = <<>>
  /\ fld' = [x1 |-> Gen(c, 1), x2 |-> Gen(c + 1, 2), c1 |-> Gen(c + 2, 3), c2 |-> Gen(c + 3, 1)]
  /\ Label("start", "", "", <<x, fld'>>, s, "")
Set(f, c, s) == Started /\ UNCHANGED env /\ out' = <<>> /\ fld' = [fld EXCEPT ![f] = Gen(c, 2)] /\ Label("set", "", f, <<fld'[f]>>, s, "")
Coeff(h, n, f, s) == Started /\ Put(h, [t |-> "coeff", n |-> n, f |-> f]) /\ Label("coeff", h, "", <<n, f>>, s, "")
Atom(h, t, ty, x, s) == Started /\ Put(h, [t |-> t, ty |-> ty, x |-> x, n |-> 1, f |-> "", b |-> 0]) /\ Label("atom", h, t, <<ty, x>>, s, "")
Empty(h, s) == Started /\ Put(h, [t |-> "expr", T |-> <<>>, S |-> <<>>]) /\ Label("empty", h, "", <<>>, s, "")
Copy(h, g, s) == env[g] # None /\ Put(h, env[g]) /\ Label("copy", h, "", <<g>>, s, "")
\* assignment onto an existing operator or coefficient, also onto itself
Assign(h, g, s) == Is(g, {"spatial", "coeff"}) /\ env[h].t = env[g].t /\ Put(h, env[g]) /\ Label("assign", h, "", <<g>>, s, "")
Move(h, g, s) == /\ env[g] # None /\ h # g /\ UNCHANGED fld /\ out' = <<>> /\ env' = [env EXCEPT ![h] = env[g], ![g] = None]
                 /\ Label("move", h, "", <<g>>, s, "")
\* number * anything; field * operator; coefficient * operator or coefficient
MulNum(h, n, g, s) == Is(g, Kinds \cup {"expr"}) /\ Put(h, Scale(n, env[g])) /\ Label("mul", h, "num", <<n, g>>, s, "")
MulFld(h, f, g, s) ==
  LET k == [n |-> 1, f |-> f] IN
  /\ Is(g, Kinds)
  /\ IF Clash(k, env[g]) THEN UNCHANGED <<env, fld>> /\ out' = <<>> /\ Label("mul", h, "field", <<f, g>>, s, "stopped")
     ELSE Put(h, Times(k, env[g])) /\ Label("mul", h, "field", <<f, g>>, s, "")
MulCo(h, k, g, s) ==
  /\ Is(k, {"coeff"}) /\ Is(g, Kinds \cup {"coeff"})
  /\ IF Clash(env[k], env[g]) THEN UNCHANGED <<env, fld>> /\ out' = <<>> /\ Label("mul", h, "coeff", <<k, g>>, s, "stopped")
     ELSE Put(h, Times(env[k], env[g])) /\ Label("mul", h, "coeff", <<k, g>>, s, "")
\* in place, through the coefficient an operator (or coefficient) hands out
Factor(g, n, s) == Is(g, Kinds \cup {"coeff"}) /\ Put(g, Times([n |-> n, f |-> ""], env[g])) /\ Label("factor", g, "num", <<n>>, s, "")
FactorCo(g, k, s) ==
  /\ Is(g, Kinds \cup {"coeff"}) /\ Is(k, {"coeff"})
  /\ IF Clash(env[k], env[g]) THEN UNCHANGED <<env, fld>> /\ out' = <<>> /\ Label("factor", g, "coeff", <<k>>, s, "stopped")
     ELSE Put(g, Times(env[k], env[g])) /\ Label("factor", g, "coeff", <<k>>, s, "")
\* the coefficient of one term of an expression
FactorTerm(g, w, i, n, s) ==
  /\ Is(g, {"expr"}) /\ i \in DOMAIN env[g][w]
  /\ Put(g, [env[g] EXCEPT ![w][i] = Times([n |-> n, f |-> ""], @)]) /\ Label("factorTerm", g, w, <<i - 1, n>>, s, "")
Sums(a, b) == \/ a.t = "expr" /\ b.t \in {"expr", "spatial"}
              \/ a.t \in Kinds /\ b.t \in Kinds
Add(h, l, r, s) == Sums(env[l], env[r]) /\ Put(h, Join(env[l], env[r])) /\ Label("add", h, "", <<l, r>>, s, "")
Sub(h, l, r, s) == Sums(env[l], env[r]) /\ Put(h, Join(env[l], Scale(-1, env[r]))) /\ Label("sub", h, "", <<l, r>>, s, "")
\* in place
Append_(g, r, s) == Is(g, {"expr"}) /\ Is(r, Kinds \cup {"expr"}) /\ Put(g, Join(env[g], env[r])) /\ Label("append", g, "", <<r>>, s, "")
BuildOp(o, b) == [o EXCEPT !.b = b]
Build(g, b, s) ==
  /\ Is(g, Kinds \cup {"expr"})
  /\ Put(g, IF env[g].t = "expr" THEN [env[g] EXCEPT !.T = [i \in DOMAIN @ |-> BuildOp(@[i], b)], !.S = [i \in DOMAIN @ |-> BuildOp(@[i], b)]]
            ELSE BuildOp(env[g], b))
  /\ Label("build", g, "", <<b>>, s, "")
Kept == UNCHANGED <<env, fld>>
\* evaluation: adds to what is in the source (start value z), returns it
Explicit(g, how, z, s) ==
  /\ Is(g, Kinds \cup {"expr"}) /\ Kept
  /\ LET e == env[g]
         q == CASE e.t \in Kinds -> <<e>> [] how = "temporal" -> OfType(e.T, "Explicit") [] OTHER -> OfType(e.S, "Explicit")
         from == IF how = "new" THEN 0 ELSE z
     IN /\ (how = "temporal") => e.t \in {"temporal", "expr"}
        /\ (how # "temporal") => e.t \in {"spatial", "expr"}
        /\ (how = "new") => e.t = "expr"
        /\ out' = [i \in 1..Size |-> from + Total(q, i, 2, 3)]
  /\ Label("explicit", g, how, <<z>>, s, "")
Implicit(g, how, z, s) ==
  /\ Is(g, Kinds \cup {"expr"}) /\ Kept
  /\ LET e == env[g]
         q == CASE e.t \in Kinds -> <<e>> [] how = "temporal" -> OfType(e.T, "Implicit") [] OTHER -> OfType(e.S, "Implicit")
     IN /\ (how = "temporal") => e.t \in {"temporal", "expr"}
        /\ (how # "temporal") => e.t \in {"spatial", "expr"}
        /\ out' = [i \in 1..(2 * Size) |-> IF i <= Size THEN z + Total(q, i, 2, 3) ELSE z + 2 * Total(q, i - Size, 2, 3)]
  /\ Label("implicit", g, how, <<z>>, s, "")
\* a coefficient as a field: a value per cell, or a single one
ToField(g, s) == Is(g, {"coeff"}) /\ Kept /\ out' = (IF env[g].f = "" THEN <<env[g].n>> ELSE Coef(env[g])) /\ Label("toField", g, "", <<>>, s, "")

\* what can happen now (chosen first, so that sampling evaluates little); a new operator always can
Now == IF ~Started THEN {"start"}
       ELSE {"atom"} \cup (IF "fields" \in Acts THEN {"set", "coeff"} \cup (IF Coeffs # {} THEN {"mulCo", "toField", "factorCo"} ELSE {}) ELSE {})
            \cup (IF "sums" \in Acts THEN {"empty"} ELSE {}) \cup (IF "copies" \in Acts /\ Used # {} THEN {"copy", "assign", "move"} ELSE {})
            \cup (IF Ops \cup Exprs # {} THEN {"mulNum", "explicit", "explicit2", "implicit"} \cup (IF "build" \in Acts THEN {"build"} ELSE {})
                                               \cup (IF "sums" \in Acts THEN {"add", "add2", "sub"} ELSE {}) ELSE {})
            \cup (IF Ops # {} THEN (IF "fields" \in Acts THEN {"mulFld"} ELSE {}) \cup (IF "copies" \in Acts THEN {"factor"} ELSE {}) ELSE {})
            \cup (IF Exprs # {} /\ "sums" \in Acts THEN {"append", "append2", "factorTerm"} ELSE {})
Go(do, s) ==
  \/ do = "start" /\ \E x \in Pick(Execs), c \in Pick(Vals) : Start(x, c, s)
  \/ do = "set" /\ \E f \in Pick(Xs \cup Cs), c \in Pick(Vals) : Set(f, c, s)
  \/ do = "coeff" /\ \E h \in Pick(Handles), n \in Pick(Nums), f \in Pick(Cs \cup {""}) : Coeff(h, n, f, s)
  \/ do = "atom" /\ \E h \in Pick(Handles), a \in Pick(Atoms) : Atom(h, a[1], a[2], a[3], s)
  \/ do = "empty" /\ \E h \in Pick(Handles) : Empty(h, s)
  \/ do = "mulNum" /\ \E h \in Pick(Handles), n \in Pick(Nums), g \in Pick(Ops \cup Exprs) : MulNum(h, n, g, s)
  \/ do = "mulFld" /\ \E h \in Pick(Handles), f \in Pick(Cs), g \in Pick(Ops) : MulFld(h, f, g, s)
  \/ do = "mulCo" /\ \E h \in Pick(Handles), k \in Pick(Coeffs), g \in Pick(Ops \cup Coeffs) : MulCo(h, k, g, s)
  \/ do = "factor" /\ \E g \in Pick(Ops \cup Coeffs), n \in Pick(Nums) : Factor(g, n, s)
  \/ do = "factorCo" /\ \E g \in Pick(Ops \cup Coeffs), k \in Pick(Coeffs) : FactorCo(g, k, s)
  \/ do = "factorTerm" /\ \E g \in Pick(Exprs), w \in Pick({"T", "S"}), i \in Pick(1..3), n \in Pick(Nums) : FactorTerm(g, w, i, n, s)
  \/ do \in {"add", "add2"} /\ \E h \in Pick(Handles), l \in Pick(Ops \cup Exprs), r \in Pick(Ops \cup Exprs) : Add(h, l, r, s)
  \/ do = "sub" /\ \E h \in Pick(Handles), l \in Pick(Ops \cup Exprs), r \in Pick(Ops \cup Exprs) : Sub(h, l, r, s)
  \/ do \in {"append", "append2"} /\ \E g \in Pick(Exprs), r \in Pick(Ops \cup Exprs) : Append_(g, r, s)
  \/ do = "copy" /\ \E h \in Pick(Handles), g \in Pick(Used) : Copy(h, g, s)
  \/ do = "assign" /\ \E h \in Pick(Used), g \in Pick(Used) : Assign(h, g, s)
  \/ do = "move" /\ \E h \in Pick(Handles), g \in Pick(Used) : Move(h, g, s)
  \/ do = "build" /\ \E g \in Pick(Ops \cup Exprs), b \in Pick({1, 2}) : Build(g, b, s)
  \/ do \in {"explicit", "explicit2"} /\ \E g \in Pick(Ops \cup Exprs), how \in Pick({"new", "onto", "temporal"}), z \in Pick({0, 5}) : Explicit(g, how, z, s)
  \/ do = "implicit" /\ \E g \in Pick(Ops \cup Exprs), how \in Pick({"spatial", "temporal"}), z \in Pick({0, 5}) : Implicit(g, how, z, s)
  \/ do = "toField" /\ \E g \in Pick(Coeffs) : ToField(g, s)
Sampling == Pick({1, 2}) # {1, 2}
Next == \E s \in Pick(Scheds), do \in Pick(Now) : Go(do, s) \/ (Sampling /\ Started /\ Go("atom", s)) \/ (Sampling /\ \E again \in Pick(Now) : Go(again, s))
Spec == Init /\ [][Next]_vars
St == <<env, fld>>
\* what can be seen of an operator: its type, its coefficient and what it evaluates to
See(o) == IF o.t = "coeff" THEN [t |-> "coeff", c |-> IF o.f = "" THEN <<o.n>> ELSE Coef(o)]
          ELSE [t |-> o.t, ty |-> o.ty, h |-> o.f # "", c |-> Coef(o), v |-> [i \in 1..Size |-> At(o, i, 0, 0)]]
Look(e) == IF e.t = "none" THEN e ELSE IF e.t = "expr" THEN [t |-> "expr", T |-> [i \in DOMAIN e.T |-> See(e.T[i])], S |-> [i \in DOMAIN e.S |-> See(e.S[i])]] ELSE See(e)
Obs == [env |-> [h \in Handles |-> Look(env[h])], out |-> out]

(* ---- checked by TLC ---- *)
TypeOK == \A h \in Handles : env[h] = None \/ (env[h].t \in Kinds => env[h].ty \in Types /\ env[h].x \in Xs) \/ env[h].t \in {"expr", "coeff"}
Ev(e, t) == [i \in 1..Size |-> Total(IF t THEN OfType(Parts(e).T, "Explicit") ELSE OfType(Parts(e).S, "Explicit"), i, 2, 3)]
\* an expression evaluates to the sum of what was added, minus what was subtracted
Linear == [][\A t \in BOOLEAN :
   /\ (op'.n = "add" => Ev(env'[op'.h], t) = [i \in 1..Size |-> Ev(env[op'.a[1]], t)[i] + Ev(env[op'.a[2]], t)[i]])
   /\ (op'.n = "sub" => Ev(env'[op'.h], t) = [i \in 1..Size |-> Ev(env[op'.a[1]], t)[i] - Ev(env[op'.a[2]], t)[i]])
   /\ (op'.n = "mul" /\ op'.k = "num" => Ev(env'[op'.h], t) = [i \in 1..Size |-> op'.a[1] * Ev(env[op'.a[2]], t)[i]])]_vars
\* only the target of an action changes; evaluation and stopped products change nothing
Local == [][/\ \A h \in Handles : h # op'.h /\ ~(op'.n = "move" /\ h = op'.a[1]) => env'[h] = env[h]
            /\ (op'.r.e # "" => UNCHANGED <<env, fld>>)
            /\ (op'.n # "set" /\ op'.n # "start" => UNCHANGED fld)]_vars
=============================================================================
