---------------------------- MODULE Gen_Lifecycle ---------------------------
(* Histories of Lifecycle as seen from outside: every sequence of Depth      *)
(* operations, printed for replay against the real server.                   *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Depth == atoi(IOEnv.DEPTH)
Ports == 1..atoi(IOEnv.PORTS)
Servers == 1..2
VARIABLES owner, where, h
vars == <<owner, where, h>>
Init == owner = [p \in Ports |-> "free"] /\ where = [s \in Servers |-> 0] /\ h = <<>>
Do(o, p, s) == h' = Append(h, [o |-> o, p |-> p, s |-> s])
(* a start on a port in use fails and leaves no server behind *)
Fresh(k, n) == \A j \in 1..(n - 1) : \E i \in 1..Len(h) : h[i][k] = j
Start(s, p) == /\ where[s] = 0 /\ Fresh("s", s) /\ Fresh("p", p)
               /\ Do("start", p, s)
               /\ IF owner[p] = "free"
                  THEN owner' = [owner EXCEPT ![p] = "server"] /\ where' = [where EXCEPT ![s] = p]
                  ELSE UNCHANGED <<owner, where>>
Stop(s) == /\ where[s] # 0 /\ Do("stop", where[s], s)
           /\ owner' = [owner EXCEPT ![where[s]] = "free"] /\ where' = [where EXCEPT ![s] = 0]
Occupy(p) == owner[p] = "free" /\ Fresh("p", p) /\ owner' = [owner EXCEPT ![p] = "held"] /\ Do("occupy", p, 0) /\ UNCHANGED where
Release(p) == owner[p] = "held" /\ owner' = [owner EXCEPT ![p] = "free"] /\ Do("free", p, 0) /\ UNCHANGED where
Client(o, p) == owner[p] = "server" /\ Do(o, p, 0) /\ UNCHANGED <<owner, where>>
Next == /\ Len(h) < Depth
        /\ \/ \E s \in Servers : Stop(s) \/ \E p \in Ports : Start(s, p)
           \/ \E p \in Ports : Occupy(p) \/ Release(p) \/ \E o \in {"serve", "idle"} : Client(o, p)
Emit == Len(h) = Depth => PrintT(ToJson(h))
Spec == Init /\ [][Next]_vars
=============================================================================
