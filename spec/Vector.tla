------------------------------- MODULE Vector -------------------------------
(***************************************************************************)
(* The value type of every vector field: three components, all operations  *)
(* component by component, whatever the operands alias - the vector itself *)
(* or one of its own components.  Integers stand for scalars, so that      *)
(* every intermediate result is exact.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Names, Vals, Limit, Acts, Pick(_)
VARIABLES vec, op
vars == <<vec, op>>
I == 1..3
Unit == [t |-> "unit", v |-> ""]
R(v) == [e |-> "", v |-> v]
Ok == R(Unit)
Num(n) == R([t |-> "int", v |-> ToString(n)])
Bool(b) == R([t |-> "bool", v |-> IF b THEN "true" ELSE "false"])
Text(s) == R([t |-> "text", v |-> s])
Label(n, h, a, r) == op' = [n |-> n, h |-> h, k |-> "", a |-> a, r |-> r]
Abs(x) == IF x < 0 THEN -x ELSE x
Small(v) == \A i \in I : Abs(v[i]) <= Limit
Add(x, y) == [i \in I |-> x[i] + y[i]]
Sub(x, y) == [i \in I |-> x[i] - y[i]]
Mul(s, x) == [i \in I |-> s * x[i]]
Dot(x, y) == x[1] * y[1] + x[2] * y[2] + x[3] * y[3]
Const(s) == [i \in I |-> s]
Into(h, v) == Small(v) /\ vec' = [vec EXCEPT ![h] = v]
Ask == UNCHANGED vec
\* the largest r with r * r <= n
RECURSIVE RootIn(_, _, _)
RootIn(n, lo, hi) == IF lo = hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2
                          IN IF m <= n \div m THEN RootIn(n, m, hi) ELSE RootIn(n, lo, m - 1)
Root(n) == RootIn(n, 0, 46340)

Init == vec = [n \in Names |-> Const(0)] /\ op = [n |-> "init"]
\* every way to bring a vector about
Make(h, how, x, y, z) ==
  \/ how = "xyz" /\ Into(h, <<x, y, z>>) /\ Label("make", h, <<how, x, y, z>>, Ok)
  \/ how = "const" /\ Into(h, Const(x)) /\ Label("make", h, <<how, x, y, z>>, Ok)
  \/ how = "default" /\ Into(h, Const(0)) /\ Label("make", h, <<how, x, y, z>>, Ok)
  \/ how = "zero" /\ Into(h, Const(0)) /\ Label("make", h, <<how, x, y, z>>, Ok)
  \/ how = "one" /\ Into(h, Const(1)) /\ Label("make", h, <<how, x, y, z>>, Ok)
Assign(h, g) == Into(h, vec[g]) /\ Label("assign", h, <<g>>, Ok)
\* writing one component (by either bracket or through data) leaves the others alone
Put(h, i, x, how) == Into(h, [vec[h] EXCEPT ![i] = x]) /\ Label("put", h, <<i, x, how>>, Ok)
Get(h, i, how) == Ask /\ Label("get", h, <<i, how>>, Num(vec[h][i]))
\* h = f o g : the operands are as they were, unless they are h
Combine(h, f, g, o) == /\ Into(h, IF o = "add" THEN Add(vec[f], vec[g]) ELSE Sub(vec[f], vec[g]))
                       /\ Label("combine", h, <<f, g, o>>, Ok)
Scale(h, f, s, how) == Into(h, Mul(s, vec[f])) /\ Label("scale", h, <<f, s, how>>, Ok)
\* in place; g may be h
InPlace(h, g, o) == /\ Into(h, IF o = "add" THEN Add(vec[h], vec[g]) ELSE Sub(vec[h], vec[g]))
                    /\ Label("inPlace", h, <<g, o>>, Ok)
ScaleInPlace(h, s) == Into(h, Mul(s, vec[h])) /\ Label("scaleInPlace", h, <<s>>, Ok)
\* the factor is a component of a vector, possibly of the one that is scaled
ScaleBy(h, g, i) == Into(h, Mul(vec[g][i], vec[h])) /\ Label("scaleBy", h, <<g, i>>, Ok)
Inner(h, g) == Ask /\ Label("dot", h, <<g>>, Num(Dot(vec[h], vec[g])))
Equal(h, g) == Ask /\ Label("equal", h, <<g>>, Bool(vec[h] = vec[g]))
Magnitude(h) == /\ Ask /\ Dot(vec[h], vec[h]) < 200000
                /\ Label("mag", h, <<>>, Num(Root(10000 * Dot(vec[h], vec[h])))) \* in hundredths, rounded down
ScalarMag(s) == Ask /\ Label("scalarMag", "", <<s>>, Num(Abs(s)))
Written(h) == Ask /\ Label("print", h, <<>>, Text("(" \o ToString(vec[h][1]) \o " " \o ToString(vec[h][2]) \o " " \o ToString(vec[h][3]) \o ")"))
Has(a) == a \in Acts
Next ==
  \E h \in Pick(Names) :
    \/ Has("make") /\ \E how \in Pick({"xyz", "const", "default", "zero", "one"}), x \in Pick(Vals), y \in Pick(Vals), z \in Pick(Vals) :
         (how = "xyz" \/ (how = "const" /\ y = x /\ z = x) \/ (how \notin {"xyz", "const"} /\ x = 0 /\ y = 0 /\ z = 0)) /\ Make(h, how, x, y, z)
    \/ Has("make") /\ \E g \in Pick(Names) : Assign(h, g)
    \/ Has("put") /\ \E i \in Pick(I), x \in Pick(Vals), how \in Pick({"square", "round", "data"}) : Put(h, i, x, how)
    \/ Has("put") /\ \E i \in Pick(I), how \in Pick({"square", "round", "data", "constSquare", "constRound", "constData"}) : Get(h, i, how)
    \/ Has("arith") /\ \E f \in Pick(Names), g \in Pick(Names), o \in Pick({"add", "sub"}) : Combine(h, f, g, o)
    \/ Has("arith") /\ \E f \in Pick(Names), s \in Pick(Vals), how \in Pick({"right", "left", "label"}) : Scale(h, f, s, how)
    \/ Has("arith") /\ \E g \in Pick(Names), o \in Pick({"add", "sub"}) : InPlace(h, g, o)
    \/ Has("arith") /\ \E s \in Pick(Vals) : ScaleInPlace(h, s)
    \/ Has("arith") /\ \E g \in Pick(Names), i \in Pick(I) : ScaleBy(h, g, i)
    \/ Has("ask") /\ \E g \in Pick(Names) : Inner(h, g) \/ Equal(h, g)
    \/ Has("ask") /\ (Magnitude(h) \/ Written(h) \/ \E s \in Pick(Vals) : ScalarMag(s))
Spec == Init /\ [][Next]_vars
St == vec
Obs == vec
\* no operation changes a vector it was not asked to change
OthersStay == [][ \A n \in Names : (op'.n \in {"get", "dot", "equal", "mag", "print", "scalarMag"} \/ n # op'.h) => vec'[n] = vec[n] ]_vars
\* the laws computations with vectors rely on
Laws == \A a, b \in Names : LET x == vec[a] y == vec[b] IN
          /\ Dot(x, y) = Dot(y, x) /\ Dot(x, x) >= 0 /\ (Dot(x, x) = 0 <=> x = Const(0))
          /\ Add(x, y) = Add(y, x) /\ Sub(Add(x, y), y) = x /\ Sub(x, x) = Const(0)
          /\ Add(x, x) = Mul(2, x)
          /\ Dot(x, Const(1)) = x[1] + x[2] + x[3]
CauchySchwarz == \A a, b \in Names : LET x == vec[a] y == vec[b] IN
          (Dot(x, x) < 30000 /\ Dot(y, y) < 30000) => Dot(x, y) * Dot(x, y) <= Dot(x, x) * Dot(y, y)
=============================================================================
