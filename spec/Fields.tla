------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* Fields: arrays of values owned by an executor.  A field is a value: a   *)
(* copy shares nothing with its source, element-wise operations touch      *)
(* every element exactly once whatever order the executor runs them in,    *)
(* and moving values between executors loses nothing.  op.s is the         *)
(* schedule the kernels of the call run under; no result depends on it.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Handles, Execs, Lists,  \* Lists: sequences offered as initial contents
          Vals, Sizes, Limit,     \* values stay within -Limit..Limit (exact in every element type)
          Scheds, Acts, Debug, Pick(_)
VARIABLES fld,  \* handle -> None or [x |-> executor, v |-> sequence]
          op
vars == <<fld, op>>
None == [x |-> "", v |-> <<>>]
Unit == [t |-> "unit", v |-> ""]
R(e, v) == [e |-> e, v |-> v]
Ok == R("", Unit)
B(b) == R("", [t |-> "bool", v |-> IF b THEN "true" ELSE "false"])
Label(n, h, a, s, r) == op' = [n |-> n, h |-> h, k |-> "", a |-> a, s |-> s, r |-> r]
Is(h) == fld[h] # None
Set(h, x, v) == fld' = [fld EXCEPT ![h] = [x |-> x, v |-> v]]
Len_(h) == Len(fld[h].v)
InLimit(v) == \A i \in DOMAIN v : v[i] <= Limit /\ v[i] >= -Limit
Init == fld = [h \in Handles |-> None] /\ op = [n |-> "init"]
Map(v, F(_, _)) == [i \in 1..Len(v) |-> F(i, v[i])]

New(h, x, l, s) == Set(h, x, l) /\ Label("new", h, <<x, l>>, s, Ok)                  \* from host values
Uniform(h, x, n, c, s) == Set(h, x, [i \in 1..n |-> c]) /\ Label("uniform", h, <<x, n, c>>, s, Ok)
Drop(h, s) == Is(h) /\ fld' = [fld EXCEPT ![h] = None] /\ Label("drop", h, <<>>, s, Ok)
\* how: "on" (executor given), "copy" (copy constructor), "to" (copyToExecutor), "move"
Construct(g, h, x, how, s) ==
  /\ Is(h) /\ g # h
  /\ fld' = [fld EXCEPT ![g] = [x |-> IF how \in {"copy", "move"} THEN fld[h].x ELSE x, v |-> fld[h].v],
                        ![h] = IF how = "move" THEN [x |-> fld[h].x, v |-> <<>>] ELSE @]
  /\ Label("construct", g, <<h, x, how>>, s, Ok)
Assign(g, h, s) ==                                   \* also g = h
  /\ Is(g) /\ Is(h)
  /\ IF fld[g].x = fld[h].x THEN Set(g, fld[g].x, fld[h].v) /\ Label("assign", g, <<h>>, s, Ok)
     ELSE UNCHANGED fld /\ Label("assign", g, <<h>>, s, R("stopped", Unit))
Fill(h, c, s) == Is(h) /\ Set(h, fld[h].x, Map(fld[h].v, LAMBDA i, e : c)) /\ Label("fill", h, <<c>>, s, Ok)
\* a range is given as [lo, hi); how: "fill" (value c), "set" (element i becomes i+c), "map" (element i becomes i*c)
FillRange(h, lo, hi, c, how, s) ==
  /\ Is(h) /\ lo < hi /\ hi <= Len_(h)
  /\ LET w == [i \in 1..Len_(h) |-> IF i > lo /\ i <= hi
                                      THEN (IF how = "fill" THEN c ELSE IF how = "set" THEN i - 1 + c ELSE (i - 1) * c)
                                      ELSE fld[h].v[i]]
     IN InLimit(w) /\ Set(h, fld[h].x, w)
  /\ Label("range", h, <<lo, hi, c, how>>, s, Ok)
Apply(h, c, s) == /\ Is(h) /\ LET w == Map(fld[h].v, LAMBDA i, e : i - 1 - c) IN InLimit(w) /\ Set(h, fld[h].x, w)
                  /\ Label("apply", h, <<c>>, s, Ok)
Fits(g, h) == Is(g) /\ Is(h) /\ fld[g].x = fld[h].x /\ Len_(g) = Len_(h)
\* g += h, g -= h (also with g = h); element-wise product where the element type has one
Combine(g, h, w, s) ==
  /\ Fits(g, h)
  /\ w = "mul" => "mul" \in Acts
  /\ LET r == [i \in 1..Len_(g) |-> CASE w = "add" -> fld[g].v[i] + fld[h].v[i]
                                      [] w = "sub" -> fld[g].v[i] - fld[h].v[i]
                                      [] w = "mul" -> fld[g].v[i] * fld[h].v[i]]
     IN InLimit(r) /\ Set(g, fld[g].x, r)
  /\ Label("combine", g, <<h, w>>, s, Ok)
\* f = g + h, f = g - h, f = g * h : the operands stay
Result(f, g, h, w, s) ==
  /\ Fits(g, h) /\ f # g /\ f # h
  /\ w = "mul" => "mul" \in Acts
  /\ LET r == [i \in 1..Len_(g) |-> CASE w = "add" -> fld[g].v[i] + fld[h].v[i]
                                      [] w = "sub" -> fld[g].v[i] - fld[h].v[i]
                                      [] w = "mul" -> fld[g].v[i] * fld[h].v[i]]
     IN InLimit(r) /\ Set(f, fld[g].x, r)
  /\ Label("result", f, <<g, h, w>>, s, Ok)
\* operands that do not go together are refused before anything changes: lengths always, executors in debug builds
Mismatch(g, h, w, s) ==
  /\ Is(g) /\ Is(h) /\ UNCHANGED fld
  /\ Len_(g) # Len_(h) \/ fld[g].x # fld[h].x
  /\ Debug \/ fld[g].x = fld[h].x
  /\ w \in {"mul", "times"} => "mul" \in Acts
  /\ Label("mismatch", g, <<h, w>>, s, R(IF Debug THEN "stopped" ELSE "exception", Unit))
RECURSIVE SumOf(_)
SumOf(v) == IF v = <<>> THEN 0 ELSE Head(v) + SumOf(Tail(v))
Sum(h, s) == Is(h) /\ UNCHANGED fld /\ Label("sum", h, <<>>, s, R("", [t |-> "int", v |-> ToString(SumOf(fld[h].v))]))
\* a view of [lo, hi), of the field or of the constant field, shows exactly those elements
ViewRead(h, lo, hi, how, s) ==
  /\ Is(h) /\ fld[h].x # "gpu" /\ lo < hi /\ hi <= Len_(h) /\ UNCHANGED fld
  /\ Label("viewRead", h, <<lo, hi, how>>, s, R("", [t |-> "list", v |-> ToString(SubSeq(fld[h].v, lo + 1, hi))]))
Scale(g, h, c, s) ==                                 \* g *= c when g = h, otherwise g = h * c
  /\ Is(h)
  /\ LET r == Map(fld[h].v, LAMBDA i, e : e * c) IN InLimit(r) /\ Set(g, fld[h].x, r)
  /\ Label("scale", g, <<h, c>>, s, Ok)
\* resizing keeps what fits; new elements are unspecified, so the driver gives them the value c
Resize(h, n, c, s) ==
  /\ Is(h)
  /\ Set(h, fld[h].x, [i \in 1..n |-> IF i <= Len_(h) THEN fld[h].v[i] ELSE c])
  /\ Label("resize", h, <<n, c>>, s, Ok)
Equal(g, h, s) == /\ Is(g) /\ Is(h) /\ UNCHANGED fld
                  /\ Label("equal", g, <<h>>, s, B(fld[g].v = fld[h].v))
EqualValue(h, c, s) == /\ Is(h) /\ UNCHANGED fld
                       /\ Label("equalValue", h, <<c>>, s, B(\A i \in 1..Len_(h) : fld[h].v[i] = c))
\* writing through a view of [lo, hi) on the host changes exactly those elements
ViewWrite(h, lo, hi, c, s) ==
  /\ Is(h) /\ fld[h].x # "gpu" /\ lo < hi /\ hi <= Len_(h)
  /\ Set(h, fld[h].x, [i \in 1..Len_(h) |-> IF i > lo /\ i <= hi THEN c ELSE fld[h].v[i]])
  /\ Label("viewWrite", h, <<lo, hi, c>>, s, Ok)
MaxSize == CHOOSE n \in Sizes : \A m \in Sizes : m <= n

On(g) == g \in Acts
Next == \E s \in Pick(Scheds), h \in Pick(Handles) :
  \/ \E x \in Pick(Execs) : \/ \E l \in Pick(Lists) : New(h, x, l, s)
                            \/ \E n \in Pick(Sizes), c \in Pick(Vals) : On("range") /\ Uniform(h, x, n, c, s)
  \/ On("copy") /\ Drop(h, s)
  \/ \E g \in Pick(Handles) :
       \/ On("copy") /\ \E x \in Pick(Execs), how \in Pick({"on", "copy", "to", "move"}) : Construct(g, h, x, how, s)
       \/ On("copy") /\ Assign(g, h, s)
       \/ Equal(g, h, s)
       \/ On("arith") /\ \E w \in Pick({"add", "sub", "mul"}) : Combine(g, h, w, s) \/ \E f \in Pick(Handles) : Result(f, g, h, w, s)
       \/ On("mismatch") /\ \E w \in Pick({"add", "sub", "mul", "plus", "minus", "times"}) : Mismatch(g, h, w, s)
       \/ On("scale") /\ \E c \in Pick(Vals) : Scale(g, h, c, s)
  \/ On("sum") /\ Sum(h, s)
  \/ On("range") /\ \E lo \in Pick(0..(MaxSize - 1)), hi \in Pick(1..MaxSize), how \in Pick({"view", "const"}) : ViewRead(h, lo, hi, how, s)
  \/ \E c \in Pick(Vals) :
       \/ Fill(h, c, s)
       \/ On("range") /\ (Apply(h, c, s) \/ EqualValue(h, c, s))
       \/ On("range") /\ \E n \in Pick(Sizes) : Resize(h, n, c, s)
       \/ On("range") /\ \E lo \in Pick(0..(MaxSize - 1)), hi \in Pick(1..MaxSize) :
            \/ ViewWrite(h, lo, hi, c, s)
            \/ \E how \in Pick({"fill", "set", "map"}) : FillRange(h, lo, hi, c, how, s)
Spec == Init /\ [][Next]_vars
St == fld
Obs == fld
TypeOK == \A h \in Handles : fld[h] = None \/ (fld[h].x \in Execs /\ InLimit(fld[h].v))
Touched(h) == op'.h = h \/ (op'.n = "construct" /\ op'.a[3] = "move" /\ op'.a[1] = h)
Local == [][ \A h \in Handles : ~Touched(h) => fld'[h] = fld[h] ]_vars
StaysOnExecutor == [][ op'.n \in {"assign", "fill", "range", "apply", "combine", "resize", "viewWrite"} =>
                         \A h \in Handles : fld'[h].x = fld[h].x ]_vars
ReadsPure == [][ op'.n \in {"equal", "equalValue", "mismatch", "sum", "viewRead"} => UNCHANGED fld ]_vars
CopyIsEqual == [][ op'.n = "construct" => fld'[op'.h].v = fld[op'.a[1]].v ]_vars
=============================================================================
