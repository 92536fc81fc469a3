------------------------------ MODULE AllReduce ------------------------------
(***************************************************************************)
(* Reductions over ranks and typed point-to-point messages: every rank     *)
(* ends up with the same value, the fold of what the ranks brought, for    *)
(* every element type and operation that is defined for it; a message      *)
(* arrives element by element.  Anything else ends the program.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise
CONSTANTS Contribs,        \* sequences: what rank i brings
          Cases,           \* <<type, operation>>
          MsgTypes, Msgs, Pick(_)
VARIABLES op
R(e, v) == [e |-> e, v |-> v]
Label(n, a, r) == op' = [n |-> n, h |-> "", k |-> "", a |-> a, r |-> r]
Init == op = [n |-> "init"]
B(x) == IF x THEN 1 ELSE 0
Ap(o, x, y) == CASE o = "Max" -> IF x > y THEN x ELSE y
                 [] o = "Min" -> IF x < y THEN x ELSE y
                 [] o = "Sum" -> x + y
                 [] o = "Prod" -> x * y
                 [] o = "Land" -> B(x # 0 /\ y # 0)
                 [] o = "Lor" -> B(x # 0 \/ y # 0)
                 [] o = "Band" -> x & y
                 [] o = "Bor" -> x | y
RECURSIVE Fold(_, _)
Fold(o, l) == IF Len(l) = 1 THEN l[1] ELSE Ap(o, Fold(o, SubSeq(l, 1, Len(l) - 1)), l[Len(l)])
Bits == {"Band", "Bor"}
Logic == {"Land", "Lor"}
Unsigned == {"unsigned short", "unsigned", "unsigned long", "unsigned long long"}
Defined(t, o, l) == /\ t = "bool" => o \in Logic /\ \A i \in DOMAIN l : l[i] \in {0, 1}
                    /\ t \in {"float", "double", "long double", "Vector"} => o \notin Bits \cup Logic
                    /\ t \in {"complex<float>", "complex<double>", "complex<long double>"} => o \in {"Sum", "Prod"}
                    /\ (o \in Bits \/ t \in Unsigned) => \A i \in DOMAIN l : l[i] >= 0
                    /\ o \in Logic => Len(l) > 1
                    /\ t = "char" => Fold(o, l) < 127 /\ Fold(o, l) > -127
Reduce(l, t, o) == /\ Defined(t, o, l)
                   /\ Label("reduce", <<l, t, o>>, R("", [t |-> "each", v |-> [i \in DOMAIN l |-> Fold(o, l)]]))
Message(t, m) == Label("message", <<t, m>>, R("", [t |-> "list", v |-> m]))
Env(n) == Label("env", <<n>>, R("", [t |-> "list", v |-> [i \in 1..n |-> 100 * n + i - 1]]))   \* 100 * size + rank
Bad(what) == Label("bad", <<what>>, R("stopped", [t |-> "unit", v |-> ""]))
Next == \/ \E l \in Pick(Contribs), c \in Pick(Cases) : Reduce(l, c[1], c[2])
        \/ \E t \in Pick(MsgTypes), m \in Pick(Msgs) : Message(t, m)
        \/ \E n \in Pick(1..5) : Env(n)
        \/ \E w \in Pick({"type", "op", "null communicator"}) : Bad(w)
St == IF op.n = "init" THEN 0 ELSE 0
Obs == <<>>
vars == op
Spec == Init /\ [][Next]_vars
Agree == [][ op'.n = "reduce" => \A i \in DOMAIN op'.r.v.v : op'.r.v.v[i] = op'.r.v.v[1] ]_vars
=============================================================================
