------------------------- MODULE ParallelAlgorithms -------------------------
(***************************************************************************)
(* What the parallel algorithms promise, as functions of their arguments:  *)
(* nothing depends on the executor x or on the schedule s.  ParallelRun    *)
(* refines a call into interleaved iterations and shows why this can be    *)
(* promised for bodies whose iterations do not interfere.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Execs, Lists, Inits, Ranges, Scheds, Acts, Pick(_)
VARIABLES arr, op        \* arr: the array the last call left behind
vars == <<arr, op>>
R(v) == [e |-> "", v |-> [t |-> "int", v |-> v]]
Label(n, a, s, r) == op' = [n |-> n, h |-> "", k |-> "", a |-> a, s |-> s, r |-> R(r)]
Init == arr = <<>> /\ op = [n |-> "init"]

RECURSIVE Fold(_, _, _, _)
Fold(k, l, lo, hi) ==              \* elements lo..hi-1 (counting from 0)
  IF lo >= hi THEN CASE k = "sum" -> 0 [] k = "prod" -> 1 [] k = "max" -> -1000000 [] k = "min" -> 1000000
  ELSE LET r == Fold(k, l, lo, hi - 1)
           e == l[hi]
       IN CASE k = "sum" -> r + e
            [] k = "prod" -> r * e
            [] k = "max" -> IF e > r THEN e ELSE r
            [] k = "min" -> IF e < r THEN e ELSE r
RECURSIVE Prefixes(_, _, _)
Prefixes(l, i, acc) == IF i > Len(l) THEN <<>> ELSE <<acc + l[i]>> \o Prefixes(l, i + 1, acc + l[i])
PrefixSum(l) == Prefixes(l, 1, 0)
\* every index of [lo, hi) is visited exactly once, no other index ever
For(x, lo, hi, n, s) == /\ lo <= hi /\ hi <= n /\ arr' = [i \in 1..n |-> IF i > lo /\ i <= hi THEN 1 ELSE 0]
                        /\ Label("for", <<x, lo, hi, n>>, s, IF hi > lo THEN hi - lo ELSE 0)
\* element i becomes the kernel's value for i
FieldFor(x, n, c, s) == arr' = [i \in 1..n |-> c * (i - 1) + 1] /\ Label("field", <<x, n, c>>, s, n)
\* how: "sum" (plain value), "rsum"/"prod"/"max"/"min" (reducers); the value held before does not matter
Reduce(x, l, lo, hi, k, c, s) ==
  /\ lo <= hi /\ hi <= Len(l) /\ arr' = <<>>
  /\ lo >= hi => k \in {"sum", "rsum", "prod"}
  /\ k = "prod" => hi - lo <= 5
  /\ Label("reduce", <<x, l, lo, hi, k, c>>, s, Fold(IF k = "rsum" THEN "sum" ELSE k, l, lo, hi))
FieldReduce(x, l, k, c, s) ==
  /\ arr' = <<>> /\ (Len(l) = 0 => k \in {"sum", "rsum", "prod"})
  /\ k = "prod" => Len(l) <= 5
  /\ Label("freduce", <<x, l, k, c>>, s, Fold(IF k = "rsum" THEN "sum" ELSE k, l, 0, Len(l)))
Scan(x, l, total, c, s) ==
  /\ arr' = PrefixSum(l)
  /\ Label("scan", <<x, l, total, c>>, s, IF total THEN Fold("sum", l, 0, Len(l)) ELSE 0)
Sum(x, l, s) == arr' = <<>> /\ Label("sum", <<x, l>>, s, Fold("sum", l, 0, Len(l)))
\* a range of a scan may start anywhere: only indices of the range are visited
SubScan(x, l, lo, hi, s) ==
  /\ hi <= Len(l) /\ lo <= hi
  /\ arr' = [i \in 1..Len(l) |-> IF i > lo /\ i <= hi THEN Fold("sum", l, lo, i) ELSE 0]
  /\ Label("subscan", <<x, l, lo, hi>>, s, Fold("sum", l, lo, hi))

(* ---- segments: interval lengths l become offsets; segment j is [off(j), off(j+1)) ---- *)
NonNeg(l) == \A i \in DOMAIN l : l[i] >= 0
Offsets(l) == <<0>> \o PrefixSum(l)
Segments(x, l, s) == NonNeg(l) /\ arr' = Offsets(l) /\ Label("segments", <<x, l>>, s, Fold("sum", l, 0, Len(l)))
\* values 100 j + q (q-th of segment j) are written through every segment's own range: "span", "range" or "bounds"
RECURSIVE Written(_, _)
Written(l, j) == IF j > Len(l) THEN <<>> ELSE [q \in 1..l[j] |-> 100 * j + q - 1] \o Written(l, j + 1)
SegWrite(x, l, how, s) ==
  /\ NonNeg(l)
  /\ arr' = Written(l, 1)
  /\ Label("segwrite", <<x, l, how>>, s, Len(l))

Next == \E s \in Pick(Scheds), x \in Pick(Execs) :
  \/ "basic" \in Acts /\
     \/ \E lo \in Pick(Ranges), hi \in Pick(Ranges), n \in Pick(Ranges) : For(x, lo, hi, n, s)
     \/ \E n \in Pick(Ranges), c \in Pick(Inits) : FieldFor(x, n, c, s)
     \/ \E l \in Pick(Lists), k \in Pick({"sum", "rsum", "prod", "max", "min"}), c \in Pick(Inits) :
          \/ \E lo \in Pick(Ranges), hi \in Pick(Ranges) : Reduce(x, l, lo, hi, k, c, s)
          \/ FieldReduce(x, l, k, c, s)
     \/ \E l \in Pick(Lists), c \in Pick(Inits), t \in Pick(BOOLEAN) : Scan(x, l, t, c, s)
     \/ \E l \in Pick(Lists), lo \in Pick(Ranges), hi \in Pick(Ranges) : SubScan(x, l, lo, hi, s)
     \/ \E l \in Pick(Lists) : Sum(x, l, s)
  \/ "segments" \in Acts /\
     \/ \E l \in Pick(Lists) : Segments(x, l, s)
     \/ \E l \in Pick(Lists), how \in Pick({"span", "range", "bounds", "raw"}) : SegWrite(x, l, how, s)
Spec == Init /\ [][Next]_vars
St == IF op.n = "init" THEN 0 ELSE 0   \* calls do not depend on one another
Obs == arr
TypeOK == \A i \in DOMAIN arr : arr[i] \in Int
\* a scan or a segmentation never decreases over non-negative lengths and ends in the total
Monotone == [][ op'.n = "segments" => /\ arr'[1] = 0 /\ arr'[Len(arr')] = op'.r.v.v
                                      /\ \A i \in 1..(Len(arr') - 1) : arr'[i] <= arr'[i + 1] ]_vars
ExactlyOnce == [][ op'.n = "for" => \A i \in DOMAIN arr' : arr'[i] = (IF i > op'.a[2] /\ i <= op'.a[3] THEN 1 ELSE 0) ]_vars
=============================================================================
