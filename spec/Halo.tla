-------------------------------- MODULE Halo --------------------------------
(***************************************************************************)
(* Field exchange between ranks.  Every rank r owns fields f[r][k]; a      *)
(* communication with name n packs the values SendMap[r][d] of field       *)
(* FieldOf[n] for every rank d when it starts and, when it is finalised,   *)
(* unpacks what rank s sent into RecvMap[r][s].  The network delivers in   *)
(* any order between channels (FIFO within one), may copy a message early  *)
(* (Buffer) or only when the receiver is ready (Deliver).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NRanks, Names, Fields, FieldOf, SendMap, RecvMap, \* SendMap[r][d]: sequence of element numbers (from 0)
          First,                 \* field -> rank -> initial contents
          Vals, MaxAhead, Pick(_)
VARIABLES f, act, q, got, rnd, op
vars == <<f, act, q, got, rnd, op>>
Ranks == 1..NRanks
R(v) == [e |-> "", v |-> v]
Unit == [t |-> "unit", v |-> ""]
B(b) == [t |-> "bool", v |-> IF b THEN "true" ELSE "false"]
Label(n, r, a, res) == op' = [n |-> n, h |-> r, k |-> "", a |-> a, r |-> R(res)]
Chan == Ranks \X Ranks \X Names
NotPosted == [s |-> "no", v |-> <<>>, k |-> 0]
Waiting == [s |-> "wait", v |-> <<>>, k |-> 0]
Init == /\ f = [r \in Ranks |-> [k \in Fields |-> First[k][r]]]
        /\ act = [r \in Ranks |-> [n \in Names |-> FALSE]]
        /\ q = [c \in Chan |-> <<>>] /\ got = [c \in Chan |-> NotPosted]  \* got[<<s, d, n>>]: what d holds from s
        /\ rnd = [r \in Ranks |-> [n \in Names |-> 0]]                       \* ghost: how often started
        /\ op = [n |-> "init"]
Sends(s, d) == Len(SendMap[s][d]) > 0
Pack(s, d, n) == [i \in 1..Len(SendMap[s][d]) |-> f[s][FieldOf[n]][SendMap[s][d][i] + 1]]
Start(r, n) ==
  /\ ~act[r][n] /\ \A d \in Ranks : Len(q[<<r, d, n>>]) < MaxAhead
  /\ act' = [act EXCEPT ![r][n] = TRUE] /\ rnd' = [rnd EXCEPT ![r][n] = @ + 1]
  /\ q' = [c \in Chan |-> IF c[1] = r /\ c[3] = n /\ Sends(r, c[2])
                            THEN Append(q[c], [v |-> Pack(r, c[2], n), eager |-> FALSE, k |-> rnd'[r][n]]) ELSE q[c]]
  /\ got' = [c \in Chan |-> IF c[2] = r /\ c[3] = n /\ Sends(c[1], r) THEN Waiting ELSE got[c]]
  /\ UNCHANGED f /\ Label("start", r, <<n>>, Unit)
Deliverable(c) == q[c] # <<>> /\ got[c].s = "wait"
Deliver(c) == /\ Deliverable(c) /\ q' = [q EXCEPT ![c] = Tail(@)]
              /\ got' = [got EXCEPT ![c] = [s |-> "data", v |-> q[c][1].v, k |-> q[c][1].k]]
              /\ UNCHANGED <<f, act, rnd>> /\ Label("deliver", c[1], <<c[2], c[3]>>, B(TRUE))
Unsent(c) == {i \in DOMAIN q[c] : ~q[c][i].eager}
Buffer(c) == /\ Unsent(c) # {}
             /\ LET i == CHOOSE i \in Unsent(c) : \A j \in Unsent(c) : i <= j IN q' = [q EXCEPT ![c][i].eager = TRUE]
             /\ UNCHANGED <<f, act, rnd, got>> /\ Label("buffer", c[1], <<c[2], c[3]>>, B(TRUE))
Complete(r, n) == /\ \A s \in Ranks : got[<<s, r, n>>].s # "wait"
                  /\ \A d \in Ranks : Unsent(<<r, d, n>>) = {}
Test(r, n) == act[r][n] /\ UNCHANGED <<f, act, q, got, rnd>> /\ Label("test", r, <<n>>, B(Complete(r, n)))
\* finalising waits: what is there is received, what is not yet sent is sent; it returns only with all of it
CanFinish(r, n) == act[r][n] /\ \A s \in Ranks : got[<<s, r, n>>].s = "wait" => q[<<s, r, n>>] # <<>>
Unpack(fld, r, n, g) ==
  [i \in DOMAIN fld |-> LET W == {s \in Ranks : g[<<s, r, n>>].s = "data" /\ \E j \in DOMAIN RecvMap[r][s] : RecvMap[r][s][j] = i - 1}
                        IN IF W = {} THEN fld[i]
                           ELSE LET s == CHOOSE s \in W : TRUE IN g[<<s, r, n>>].v[CHOOSE j \in DOMAIN RecvMap[r][s] : RecvMap[r][s][j] = i - 1]]
Finish(r, n) ==
  /\ CanFinish(r, n)
  /\ LET mineIn(c) == c[2] = r /\ c[3] = n /\ got[c].s = "wait"
         mineOut(c) == c[1] = r /\ c[3] = n /\ Unsent(c) # {}
         g == [c \in Chan |-> IF mineIn(c) THEN [s |-> "data", v |-> q[c][1].v, k |-> q[c][1].k] ELSE got[c]]
         own(c) == mineOut(c) /\ ~mineIn(c) /\ Len(q[c]) = 1 /\ got[c].s = "wait"     \* rendezvous with a ready receiver
     IN /\ q' = [c \in Chan |-> IF mineIn(c) \/ own(c) THEN Tail(q[c])
                                ELSE IF mineOut(c) THEN [i \in DOMAIN q[c] |-> [q[c][i] EXCEPT !.eager = TRUE]] ELSE q[c]]
        /\ got' = [c \in Chan |-> IF c[2] = r /\ c[3] = n THEN NotPosted
                                  ELSE IF own(c) THEN [s |-> "data", v |-> q[c][1].v, k |-> q[c][1].k] ELSE got[c]]
        /\ f' = [f EXCEPT ![r][FieldOf[n]] = Unpack(@, r, n, g)]
  /\ act' = [act EXCEPT ![r][n] = FALSE]
  /\ UNCHANGED rnd /\ Label("finish", r, <<n>>, Unit)
Write(r, k, i, v) == /\ i < Len(f[r][k]) /\ f' = [f EXCEPT ![r][k][i + 1] = v]
                     /\ UNCHANGED <<act, q, got, rnd>> /\ Label("write", r, <<k, i, v>>, Unit)
MaxLen == CHOOSE m \in 1..100 : (\A k \in Fields, r \in Ranks : Len(First[k][r]) <= m) /\ (\E k \in Fields, r \in Ranks : Len(First[k][r]) = m)
Next == \/ \E r \in Pick(Ranks), n \in Pick(Names) : Start(r, n) \/ Test(r, n) \/ Finish(r, n)
        \/ \E r \in Pick(Ranks), k \in Pick(Fields), i \in Pick(0..(MaxLen - 1)), v \in Pick(Vals) : Write(r, k, i, v)
        \/ \E c \in Pick({x \in Chan : Deliverable(x)}) : Deliver(c)
        \/ \E c \in Pick({x \in Chan : Unsent(x) # {}}) : Buffer(c)
Spec == Init /\ [][Next]_vars
St == [f |-> f, act |-> act, q |-> [s \in Ranks |-> [d \in Ranks |-> [n \in Names |-> q[<<s, d, n>>]]]],
       got |-> [s \in Ranks |-> [d \in Ranks |-> [n \in Names |-> got[<<s, d, n>>]]]]]
Obs == [f |-> f, act |-> act]
Few == \A r \in Ranks, n \in Names : rnd[r][n] <= 2
TypeOK == \A c \in Chan : got[c].s \in {"no", "wait", "data"} /\ Len(q[c]) <= MaxAhead
\* a rank always receives the values of its own round, however far a fast neighbour is ahead
RightRound == \A c \in Chan : got[c].s = "data" => got[c].k = rnd[c[2]][c[3]]
\* what a rank waits for is on its way as soon as the sender has reached the same round
NoDeadlock == \A c \in Chan : got[c].s = "wait" /\ rnd[c[1]][c[3]] >= rnd[c[2]][c[3]] => q[c] # <<>>
\* only Write and Finish change fields, and Finish only the elements of the receive map
Quiet == [][ op'.n \notin {"write", "finish"} => UNCHANGED f ]_vars
OnlyHalo == [][ op'.n = "finish" => \A r \in Ranks, k \in Fields : \A i \in DOMAIN f[r][k] :
                  f'[r][k][i] # f[r][k][i] => /\ r = op'.h /\ k = FieldOf[op'.a[1]]
                                               /\ \E s \in Ranks : \E j \in DOMAIN RecvMap[r][s] : RecvMap[r][s][j] = i - 1 ]_vars
=============================================================================
