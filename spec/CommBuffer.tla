----------------------------- MODULE CommBuffer -----------------------------
(***************************************************************************)
(* Life cycle of communication buffers, debug build.  Each rank has a send *)
(* and a receive buffer (role 1 and 2); with Full they are one full-duplex *)
(* buffer and move together.  A buffer is sized per rank in elements of    *)
(* its current type, claimed under a name, filled, started, completed and  *)
(* released; anything out of order ends the program.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NRanks, Names, Types, Topos,  \* Topos[k][s][d]: elements s sends to d
          Full, Vals, MaxAhead, Acts, Dice, Pick(_)
VARIABLES b, q, op
vars == <<b, q, op>>
Ranks == 1..NRanks
Roles == 1..2
Unit == [t |-> "unit", v |-> ""]
R(e, v) == [e |-> e, v |-> v]
Bool(x) == R("", [t |-> "bool", v |-> IF x THEN "true" ELSE "false"])
Ok == R("", Unit)
Stop == R("stopped", Unit)
Label(n, h, a, r) == op' = [n |-> n, h |-> h, k |-> "", a |-> a, r |-> r]
Bytes(t) == CASE t = "char" -> 1 [] t = "short" -> 2 [] t = "int" -> 4 [] t = "double" -> 8 [] t = "Vector" -> 24
Count(r, role, k, p) == IF role = 1 THEN Topos[k][r][p] ELSE Topos[k][p][r]
\* name "" = free; st[p]: "" idle, "busy" posted, data[p]: contents
Fresh(k) == [name |-> "", type |-> "char", topo |-> k, data |-> <<>>, st |-> [p \in Ranks |-> ""]]
Init == /\ b = [r \in Ranks |-> [o \in Roles |-> Fresh(1)]]
        /\ q = [c \in Ranks \X Ranks \X Names |-> <<>>]
        /\ op = [n |-> "init"]
Same == UNCHANGED <<b, q>>
RolesOf(o) == IF Full THEN Roles ELSE {o}
Taken(r, o) == \E x \in RolesOf(o) : b[r][x].name # ""
Free(r, o) == \E x \in RolesOf(o) : b[r][x].name = ""
Blank(r, x, k, v) == [p \in Ranks |-> [i \in 1..Count(r, x, k, p) |-> v]]
\* half-duplex buffers only: give the buffer another size and type
SetSize(r, o, t, k) ==
  /\ ~Full
  /\ IF Taken(r, o) THEN Same /\ Label("setSize", r, <<o, t, k>>, Stop)
     ELSE /\ b' = [b EXCEPT ![r][o] = [@ EXCEPT !.type = t, !.topo = k]] /\ UNCHANGED q
          /\ Label("setSize", r, <<o, t, k>>, Ok)
\* claims the buffer and, so that its contents are known, fills it with v
InitComm(r, o, t, n, v) ==
  /\ IF Taken(r, o) THEN Same /\ Label("initComm", r, <<o, t, n, v>>, Stop)
     ELSE /\ b' = [b EXCEPT ![r] = [x \in Roles |-> IF x \in RolesOf(o)
                     THEN [b[r][x] EXCEPT !.type = t, !.name = n, !.data = Blank(r, x, b[r][x].topo, v)] ELSE b[r][x]]]
          /\ UNCHANGED q /\ Label("initComm", r, <<o, t, n, v>>, Ok)
IsInit(r, o) == Same /\ Label("isInit", r, <<o>>, Bool(~Free(r, o)))
Size(r, o, t, p) == /\ Same
                    /\ Label("size", r, <<o, t, p>>, IF b[r][o].name = "" \/ Bytes(t) # Bytes(b[r][o].type) THEN Stop
                                                     ELSE R("", [t |-> "int", v |-> Count(r, o, b[r][o].topo, p)]))
Idle(r, x) == \A p \in Ranks : b[r][x].st[p] # "busy"
Put(r, o, p, v) ==                       \* fill the part of rank p with v, v+1, ..
  /\ b[r][o].name # "" /\ Idle(r, o)
  /\ b' = [b EXCEPT ![r][o].data[p] = [i \in DOMAIN @ |-> v + i - 1]]
  /\ UNCHANGED q /\ Label("put", r, <<o, p, v>>, Ok)
\* messages of one channel and what is posted for it have equal sizes (the user's obligation)
Agree(r, o) ==
  \A p \in Ranks : LET other == IF o = 1 THEN b[p][2] ELSE b[p][1]
                       ch == IF o = 1 THEN <<r, p, b[r][o].name>> ELSE <<p, r, b[r][o].name>>
                       n == Count(r, o, b[r][o].topo, p)
                   IN /\ \A i \in DOMAIN q[ch] : Len(q[ch][i].v) = n /\ q[ch][i].type = b[r][o].type
                      /\ other.name = b[r][o].name => /\ other.type = b[r][o].type
                                                     /\ Count(p, 3 - o, other.topo, r) = n
                      /\ Len(q[ch]) < MaxAhead
Post(S, r) ==       \* the roles S of rank r start
  LET n == b[r][CHOOSE x \in S : TRUE].name IN
  /\ b' = [b EXCEPT ![r] = [x \in Roles |-> IF x \in S THEN [b[r][x] EXCEPT !.st = [p \in Ranks |-> IF Count(r, x, b[r][x].topo, p) > 0 THEN "busy" ELSE ""]] ELSE b[r][x]]]
  /\ q' = [c \in DOMAIN q |-> IF 1 \in S /\ c[1] = r /\ c[3] = n /\ Count(r, 1, b[r][1].topo, c[2]) > 0
                                THEN Append(q[c], [v |-> b[r][1].data[c[2]], type |-> b[r][1].type, eager |-> FALSE]) ELSE q[c]]
Start(r, o) ==
  IF Free(r, o) \/ \E x \in RolesOf(o) : ~Idle(r, x) THEN Same /\ Label("start", r, <<o>>, Stop)
  ELSE /\ \A x \in RolesOf(o) : Agree(r, x)
       /\ Post(RolesOf(o), r) /\ Label("start", r, <<o>>, Ok)
Deliver(c) ==
  /\ q[c] # <<>> /\ b[c[2]][2].name = c[3] /\ b[c[2]][2].st[c[1]] = "busy"
  /\ q' = [q EXCEPT ![c] = Tail(@)]
  /\ LET b1 == [b EXCEPT ![c[2]][2] = [@ EXCEPT !.st[c[1]] = "", !.data[c[1]] = q[c][1].v]]
     IN b' = IF q[c][1].eager THEN b1 ELSE [b1 EXCEPT ![c[1]][1].st[c[2]] = ""]
  /\ Label("deliver", c[1], <<c[2], c[3]>>, Bool(TRUE))
Unsent(c) == {i \in DOMAIN q[c] : ~q[c][i].eager}
Buffer(c) ==
  /\ Unsent(c) # {}
  /\ LET i == CHOOSE i \in Unsent(c) : TRUE IN q' = [q EXCEPT ![c][i].eager = TRUE]
  /\ b' = [b EXCEPT ![c[1]][1].st[c[2]] = ""]
  /\ Label("buffer", c[1], <<c[2], c[3]>>, Bool(TRUE))
AllIdle(r, o) == \A x \in RolesOf(o) : Idle(r, x)
Test(r, o) == Same /\ Label("test", r, <<o>>, IF Free(r, o) THEN Stop ELSE Bool(AllIdle(r, o)))
\* waiting returns when everything outstanding has moved, which the network does in its own time
Wait(r, o) ==
  IF Free(r, o) THEN Same /\ Label("wait", r, <<o>>, Stop)
  ELSE
  LET posted(c) == b[c[2]][2].name = c[3] /\ b[c[2]][2].st[c[1]] = "busy"
      in(c) == 2 \in RolesOf(o) /\ c[2] = r /\ posted(c)
      out(c) == 1 \in RolesOf(o) /\ c[1] = r /\ c[3] = b[r][1].name /\ Unsent(c) # {}
      dlv(c) == in(c) \/ (out(c) /\ Len(q[c]) = 1 /\ posted(c))
      here(s, d) == {c \in DOMAIN q : c[1] = s /\ c[2] = d}
  IN /\ \A c \in DOMAIN q : in(c) => q[c] # <<>>
     /\ q' = [c \in DOMAIN q |-> LET t == IF dlv(c) THEN Tail(q[c]) ELSE q[c]
                                 IN IF out(c) THEN [i \in DOMAIN t |-> [t[i] EXCEPT !.eager = TRUE]] ELSE t]
     /\ b' = [s \in Ranks |-> <<
           [b[s][1] EXCEPT !.st = [d \in Ranks |-> IF \E c \in here(s, d) : out(c) \/ (dlv(c) /\ ~q[c][1].eager) THEN "" ELSE @[d]]],
           [b[s][2] EXCEPT !.st = [p \in Ranks |-> IF \E c \in here(p, s) : dlv(c) THEN "" ELSE @[p]],
                           !.data = IF b[s][2].name = "" THEN @ ELSE
                                    [p \in Ranks |-> IF \E c \in here(p, s) : dlv(c)
                                                       THEN q[CHOOSE c \in here(p, s) : dlv(c)][1].v ELSE @[p]]] >>]
     /\ Label("wait", r, <<o>>, Ok)
Release(r, o) ==
  IF Free(r, o) \/ ~AllIdle(r, o) THEN Same /\ Label("release", r, <<o>>, Stop)
  ELSE /\ b' = [b EXCEPT ![r] = [x \in Roles |-> IF x \in RolesOf(o) THEN [@[x] EXCEPT !.name = "", !.data = <<>>] ELSE @[x]]]
       /\ UNCHANGED q /\ Label("release", r, <<o>>, Ok)
Tag(n) == Same /\ Label("tag", 1, <<n>>, Bool(TRUE))     \* a name's tag is valid and the same everywhere
Chans == DOMAIN q
\* g = 1: calls that are misuse or do not matter for the exchange (drawn rarely when behaviours are sampled)
Next == \E r \in Pick(Ranks), o \in Pick(IF Full THEN {1} ELSE Roles), g \in Pick(Dice) :
  \/ \E t \in Pick(Types) : \/ \E k \in Pick(DOMAIN Topos) : g = 1 /\ "resize" \in Acts /\ SetSize(r, o, t, k)
                            \/ \E n \in Pick(Names), v \in Pick(Vals) : (g = 1 \/ ~Taken(r, o)) /\ InitComm(r, o, t, n, v)
                            \/ \E p \in Pick(Ranks), x \in Pick(Roles) : g = 1 /\ (Full \/ x = o) /\ Size(r, x, t, p)
  \/ (g = 1 \/ AllIdle(r, o)) /\ (Start(r, o) \/ Release(r, o))
  \/ g = 1 /\ (IsInit(r, o) \/ \E n \in Pick(Names) : Tag(n))
  \/ Test(r, o)
  \/ (g = 1 \/ ~AllIdle(r, o)) /\ Wait(r, o)
  \/ \E p \in Pick(Ranks), v \in Pick(Vals), x \in Pick(Roles) : (Full \/ x = o) /\ "put" \in Acts /\ Put(r, x, p, v)
  \/ \E c \in Pick({x \in Chans : q[x] # <<>>}) : Deliver(c) \/ Buffer(c)
Spec == Init /\ [][Next]_vars
St == [b |-> b, q |-> [s \in Ranks |-> [d \in Ranks |-> [n \in Names |-> q[<<s, d, n>>]]]]]
\* the part of a posted receive is not to be looked at before it has arrived
Seen(r, x) == [name |-> b[r][x].name,
               data |-> IF b[r][x].name = "" THEN <<>>
                        ELSE [p \in Ranks |-> IF x = 2 /\ b[r][x].st[p] = "busy" THEN <<-1>> ELSE b[r][x].data[p]]]
Obs == [r \in Ranks |-> [x \in Roles |-> Seen(r, x)]]
TypeOK == \A r \in Ranks, x \in Roles : (b[r][x].name = "" => Idle(r, x)) /\ \A c \in Chans : Len(q[c]) <= MaxAhead
\* a stopped call has changed nothing, sizes survive a change of type, nothing is lost in flight
StopsChangeNothing == [][ op'.r.e = "stopped" => UNCHANGED <<b, q>> ]_vars
KeepsCounts == [][ op'.n \notin {"setSize"} => \A r \in Ranks, x \in Roles : b'[r][x].topo = b[r][x].topo ]_vars
SendsUntouched == [][ \A r \in Ranks : (\E p \in Ranks : b[r][1].st[p] = "busy" /\ b'[r][1].st[p] = "busy") => b'[r][1].data = b[r][1].data ]_vars
=============================================================================
