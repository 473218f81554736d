------------------------------ MODULE Lifecycle ------------------------------
(* Ports, servers and the kernel's view of them (C22).                       *)
(*                                                                           *)
(* A port slot is used by at most one listener. Connections that were served *)
(* on a port linger in the kernel (closing, or still open) after the server  *)
(* that accepted them is gone. `listen` is described step by step the way    *)
(* ServerBuilder::new and Octane::listen perform it, so that a crash, a stop *)
(* or a client may come in between any two of them:                          *)
(*    new -> (reuse) -> bound -> listening -> announced (callback) -> serving*)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Ports, Servers, Backlog, MaxOld
VARIABLES
  phase,   \* server -> "idle","new","bound","listening","announced","serving","failed"
  on,      \* server -> port
  cbs,     \* server -> how often the callback ran in this run
  held,    \* ports held by another program
  old,     \* port -> connections of earlier servers still known to the kernel
  queue,   \* port -> clients waiting to be accepted
  served,  \* port -> clients accepted and not yet gone
  lost     \* clients turned away although a server was listening
vars == <<phase, on, cbs, held, old, queue, served, lost>>

Listening == {"listening", "announced", "serving"}
Bound == {"bound"} \cup Listening
Users(p) == {s \in Servers : phase[s] \in Bound /\ on[s] = p}
ServerOf(p) == {s \in Servers : phase[s] \in Listening /\ on[s] = p}

Init == /\ phase = [s \in Servers |-> "idle"] /\ on = [s \in Servers |-> CHOOSE p \in Ports : TRUE]
        /\ cbs = [s \in Servers |-> 0] /\ held = {} /\ old = [p \in Ports |-> 0]
        /\ queue = [p \in Ports |-> 0] /\ served = [p \in Ports |-> 0] /\ lost = 0

Call(s, p) == /\ phase[s] = "idle"
              /\ phase' = [phase EXCEPT ![s] = "new"] /\ on' = [on EXCEPT ![s] = p] /\ cbs' = [cbs EXCEPT ![s] = 0]
              /\ UNCHANGED <<held, old, queue, served, lost>>
(* the address may be reused, so only a live owner of the port is in the way *)
Bind(s) == /\ phase[s] = "new"
           /\ IF Users(on[s]) = {} /\ on[s] \notin held
              THEN phase' = [phase EXCEPT ![s] = "bound"]
              ELSE phase' = [phase EXCEPT ![s] = "failed"]
           /\ UNCHANGED <<on, cbs, held, old, queue, served, lost>>
Listen(s) == /\ phase[s] = "bound" /\ phase' = [phase EXCEPT ![s] = "listening"]
             /\ UNCHANGED <<on, cbs, held, old, queue, served, lost>>
Announce(s) == /\ phase[s] = "listening" /\ phase' = [phase EXCEPT ![s] = "announced"]
               /\ cbs' = [cbs EXCEPT ![s] = @ + 1]
               /\ UNCHANGED <<on, held, old, queue, served, lost>>
Serve(s) == /\ phase[s] = "announced" /\ phase' = [phase EXCEPT ![s] = "serving"]
            /\ UNCHANGED <<on, cbs, held, old, queue, served, lost>>
Stop(s) == /\ phase[s] \in Bound \cup {"failed", "new"}
           /\ phase' = [phase EXCEPT ![s] = "idle"]
           /\ LET p == on[s]
                  n == old[p] + served[p]
              IN IF phase[s] \in Bound
                 THEN /\ old' = [old EXCEPT ![p] = IF n > MaxOld THEN MaxOld ELSE n]
                      /\ served' = [served EXCEPT ![p] = 0] /\ queue' = [queue EXCEPT ![p] = 0]
                 ELSE UNCHANGED <<old, served, queue>>
           /\ UNCHANGED <<on, cbs, held, lost>>
Occupy(p) == /\ Users(p) = {} /\ p \notin held /\ held' = held \cup {p}
             /\ UNCHANGED <<phase, on, cbs, old, queue, served, lost>>
Release(p) == /\ p \in held /\ held' = held \ {p}
              /\ UNCHANGED <<phase, on, cbs, old, queue, served, lost>>
(* a client arrives; only a full queue turns it away *)
Connect(p) == /\ ServerOf(p) # {}
              /\ IF queue[p] < Backlog THEN queue' = [queue EXCEPT ![p] = @ + 1] /\ lost' = lost
                 ELSE queue' = queue /\ lost' = lost + 1
              /\ UNCHANGED <<phase, on, cbs, held, old, served>>
Accept(s) == /\ phase[s] = "serving" /\ queue[on[s]] > 0 /\ served[on[s]] < MaxOld
             /\ queue' = [queue EXCEPT ![on[s]] = @ - 1] /\ served' = [served EXCEPT ![on[s]] = @ + 1]
             /\ UNCHANGED <<phase, on, cbs, held, old, lost>>
Gone(p) == /\ \/ served[p] > 0 /\ served' = [served EXCEPT ![p] = @ - 1] /\ old' = old
              \/ old[p] > 0 /\ old' = [old EXCEPT ![p] = @ - 1] /\ served' = served
           /\ UNCHANGED <<phase, on, cbs, held, queue, lost>>

Next == \/ \E s \in Servers : \/ \E p \in Ports : Call(s, p)
                              \/ Bind(s) \/ Listen(s) \/ Announce(s) \/ Serve(s) \/ Stop(s) \/ Accept(s)
        \/ \E p \in Ports : Occupy(p) \/ Release(p) \/ Connect(p) \/ Gone(p)
Fair == \A s \in Servers : WF_vars(Bind(s) \/ Listen(s) \/ Announce(s) \/ Serve(s))
Spec == Init /\ [][Next]_vars /\ Fair

(* --- what C22 promises --- *)
OneOwner == \A p \in Ports : Cardinality(Users(p)) <= 1 /\ (p \in held => Users(p) = {})
CallbackMeansListening == \A s \in Servers : cbs[s] > 0 /\ phase[s] # "idle" => phase[s] \in Listening
CallbackOnce == \A s \in Servers : cbs[s] <= 1
FailureIsSilent == \A s \in Servers : phase[s] = "failed" => cbs[s] = 0
(* a port nobody owns can be bound at once, whatever lingers on it *)
RestartPossible ==
  [][\A s \in Servers : phase[s] = "new" /\ phase'[s] # "new" /\ Users(on[s]) = {} /\ on[s] \notin held
                        => phase'[s] \in {"bound", "idle"}]_vars
EveryStartSettles == \A s \in Servers : phase[s] = "new" ~> phase[s] \in {"serving", "failed", "idle"}
Bounded == lost <= 1 /\ \A p \in Ports : queue[p] <= Backlog
NobodyTurnedAway == [][lost' > lost => \E p \in Ports : queue[p] >= Backlog]_vars
=============================================================================
