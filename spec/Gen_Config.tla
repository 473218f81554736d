----------------------------- MODULE Gen_Config -----------------------------
(* Every history of Depth configuration calls; every call gives values of    *)
(* its own (its position), so that no two calls agree by accident. Along the *)
(* way: the stepwise meaning and the last-write meaning of a history agree.  *)
EXTENDS Config, Json, IOUtils, TLC
Depth == atoi(IOEnv.DEPTH)
Both == {"ka", "sslport", "sslkey", "sslcert", "sslboth", "withssl", "kaoff", "fka", "fport", "key", "cert"}
Ops == {<<"app", o>> : o \in Both \cup {"apply"}} \cup {<<"cfg", o>> : o \in Both \cup {"threads"}}
VARIABLES h, st
vars == <<h, st>>
Call(op, n) == [t |-> op[1], o |-> op[2], n |-> 10 + n, a |-> "a" \o ToString(n), b |-> "b" \o ToString(n)]
Init == h = <<>> /\ st = Start
Next == /\ Len(h) < Depth
        /\ \E op \in Ops : LET c == Call(op, Len(h) + 1) IN h' = Append(h, c) /\ st' = Step(st, c)
Spec == Init /\ [][Next]_vars
LastWins == \A t \in {"app", "cfg"}, f \in {"ka", "key", "cert", "port"} : st[t][f] = Last(h, Len(h), t, f)
OnlyNamed == [][ LET op == h'[Len(h')] IN
                 op.o # "apply" => \A t \in {"app", "cfg"}, f \in {"ka", "key", "cert", "port"} :
                                     st'[t][f] # st[t][f] => t = op.t /\ f \in Names(op) ]_vars
Emit == Len(h) = Depth => PrintT(ToJson([i \in 1..Len(h) |-> h[i]]))
=============================================================================
