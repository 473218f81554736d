----------------------------- MODULE MC_Server ------------------------------
(* C06, C18, C19, C21: many clients, a listener that accepts them and a task *)
(* per connection, on a small number of worker threads. A handler that waits *)
(* keeps its worker; everything else gives the worker back at once. Clients  *)
(* may vanish at any moment, handlers may panic, accepting may fail.         *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Clients, Workers, AcceptFaults
(* what a client is: "good" sends a whole request and waits; "gated" does    *)
(* too, but its handler waits for a gate; "panic" makes its handler panic;   *)
(* "fickle" may vanish at any point; "silent" never sends anything           *)
Kinds == {"good", "gated", "panic", "fickle", "silent"}
VARIABLES kind, cl, task, resp, got, gate, faults, up
vars == <<kind, cl, task, resp, got, gate, faults, up>>

(* cl: the client: out, waiting (in the backlog or connected), gone, served, dropped *)
(* task: none, queued, reading, running, writing, ended                              *)
Init == /\ kind \in [Clients -> Kinds]
        /\ cl = [c \in Clients |-> "out"] /\ task = [c \in Clients |-> "none"]
        /\ resp = [c \in Clients |-> {}] /\ got = [c \in Clients |-> {}]
        /\ gate = "shut" /\ faults = 0 /\ up = TRUE
Busy == Cardinality({c \in Clients : task[c] = "running" /\ kind[c] = "gated" /\ gate = "shut"})
Free == Busy < Workers
Connect(c) == /\ cl[c] = "out" /\ cl' = [cl EXCEPT ![c] = "waiting"] /\ task' = [task EXCEPT ![c] = "queued"]
              /\ UNCHANGED <<kind, resp, got, gate, faults, up>>
Vanish(c) == /\ kind[c] = "fickle" /\ cl[c] = "waiting" /\ cl' = [cl EXCEPT ![c] = "gone"]
             /\ UNCHANGED <<kind, task, resp, got, gate, faults, up>>
(* accepting: a failure concerns nobody who is connected *)
AcceptFails == /\ up /\ Free /\ faults < AcceptFaults /\ faults' = faults + 1
               /\ UNCHANGED <<kind, cl, task, resp, got, gate, up>>
Accept(c) == /\ up /\ Free /\ task[c] = "queued" /\ task' = [task EXCEPT ![c] = "reading"]
             /\ UNCHANGED <<kind, cl, resp, got, gate, faults, up>>
(* the request is complete, or the client is gone *)
Ready(c) == /\ task[c] = "reading" /\ Free
            /\ \/ cl[c] = "waiting" /\ kind[c] # "silent" /\ task' = [task EXCEPT ![c] = "running"]
               \/ cl[c] = "gone" /\ task' = [task EXCEPT ![c] = "ended"]
            /\ UNCHANGED <<kind, cl, resp, got, gate, faults, up>>
Run(c) == /\ task[c] = "running"
          /\ kind[c] = "gated" => gate = "open"
          /\ IF kind[c] = "panic"
             THEN /\ task' = [task EXCEPT ![c] = "ended"] /\ resp' = resp
                  /\ cl' = [cl EXCEPT ![c] = IF @ = "waiting" THEN "dropped" ELSE @]
             ELSE /\ resp' = [resp EXCEPT ![c] = @ \cup {c}]     \* written into this task's response only
                  /\ task' = [task EXCEPT ![c] = "writing"] /\ cl' = cl
          /\ UNCHANGED <<kind, got, gate, faults, up>>
Write(c) == /\ task[c] = "writing" /\ Free /\ task' = [task EXCEPT ![c] = "ended"]
            /\ IF cl[c] = "waiting" THEN got' = [got EXCEPT ![c] = resp[c]] /\ cl' = [cl EXCEPT ![c] = "served"]
               ELSE UNCHANGED <<got, cl>>
            /\ UNCHANGED <<kind, resp, gate, faults, up>>
Open == gate = "shut" /\ gate' = "open" /\ UNCHANGED <<kind, cl, task, resp, got, faults, up>>
Next == Open \/ AcceptFails \/ \E c \in Clients : Connect(c) \/ Vanish(c) \/ Accept(c) \/ Ready(c) \/ Run(c) \/ Write(c)
Fair == /\ WF_vars(Open)
        /\ \A c \in Clients : WF_vars(Accept(c)) /\ WF_vars(Ready(c)) /\ WF_vars(Run(c)) /\ WF_vars(Write(c))
Spec == Init /\ [][Next]_vars /\ Fair

(* everyone gets their own answer and only that (C18) *)
OwnAnswer == \A c \in Clients : got[c] \subseteq {c} /\ (cl[c] = "served" => got[c] = {c})
(* nothing any client does takes the listener down (C19, C21) *)
StaysUp == up
(* a client that keeps its side of the bargain is served (C06, C19) *)
Served == \A c \in Clients : (cl[c] = "waiting" /\ kind[c] \in {"good", "gated"}) ~> (cl[c] = "served")
TaskEnds == \A c \in Clients : (cl[c] = "gone" /\ task[c] # "none") ~> (task[c] = "ended")
=============================================================================
