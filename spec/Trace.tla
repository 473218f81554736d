-------------------------------- MODULE Trace --------------------------------
(* Validation of recorded executions. Case k is a scenario together with    *)
(* the events a real server and its clients produced; the events are taken  *)
(* one by one as steps of Octane and every step that is not one is reported *)
(* with the tags that say how it differs.                                   *)
EXTENDS Octane, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES k, l, conn, clock, ports, routes, files
vars == <<k, l, conn, clock, ports, routes, files>>

Sc == Cases[k].sc
Ev == Cases[k].events
Env == [clock |-> clock, files |-> files]

Report(tags) == IF tags = {} THEN TRUE
                ELSE PrintT(<<"BAD", Cases[k].id, l, tags>>)

Init ==
  /\ k \in 1..Len(Cases)
  /\ l = 0
  /\ conn = [c \in 1..Len(Cases[k].sc.conns) |-> NewConn]
  /\ clock = Cases[k].sc.clock
  /\ ports = [p \in {} |-> "free"]
  /\ routes = Routes(Cases[k].sc.app)
  /\ files = Cases[k].sc.files

Owner(p) == IF p \in DOMAIN ports THEN ports[p] ELSE "free"
Own(p, o) == ports' = [q \in DOMAIN ports \cup {p} |-> IF q = p THEN o ELSE ports[q]]
Upd(c, r) == conn' = [conn EXCEPT ![c] = r]
Keep == UNCHANGED <<conn, clock, ports, files>>

(* the registrations come first: what they returned *)
Register ==
  /\ l = 0
  /\ Report(IF Sc.manual THEN {}
            ELSE (IF Cases[k].regs = RegResults(Sc.app) THEN {} ELSE {"G_reg"})
                 \cup (IF Cases[k].err = "" THEN {} ELSE {"L_setup"}))
  /\ Keep

(* differences that do not put the handler chain itself in doubt *)
Views == {"V_meth", "V_ver", "V_hdr", "V_raw", "V_body", "V_ck", "V_q", "V_xq", "V_vars", "O_obs"}
Client(e) ==
  LET c == e.c
      cn == conn[c]
  IN CASE e.e = "open" -> Upd(c, [cn EXCEPT !.st = "open", !.clocks = {clock}, !.loose = Sc.conns[c].loose])
       [] e.e = "csend" -> Upd(c, [cn EXCEPT !.sent = @ + e.n])
       [] e.e = "half" -> Upd(c, [cn EXCEPT !.eof = TRUE])
       [] e.e \in {"rst", "leave", "rerr", "werr"} -> Upd(c, [cn EXCEPT !.loose = TRUE, !.eof = TRUE])
       [] e.e = "call" ->
            LET tags == InvokeTags(Sc.conns[c], cn, routes, Env, e)
                cn2 == [cn EXCEPT !.calls = Append(@, e.n)]
            IN IF cn.st = "lost" THEN Upd(c, cn2) /\ UNCHANGED files
               ELSE /\ Report(tags)
                    /\ IF tags \subseteq Views
                       THEN /\ Upd(c, Invoked(Sc.conns[c], cn2, routes, Env, e))
                            /\ files' = FilesInvoked(Sc.conns[c], cn2, routes, Env, e)
                       ELSE Upd(c, [cn2 EXCEPT !.st = "lost"]) /\ UNCHANGED files
       [] e.e = "done" ->
            /\ Report(RespondTags(Sc.conns[c], cn, routes, e))
            /\ Upd(c, [cn EXCEPT !.st = "closed"])
       [] OTHER -> UNCHANGED conn

Server(e) ==
  CASE e.e = "start" -> /\ Report(StartTags(Owner(e.p), e))
                        /\ IF Owner(e.p) = "free" THEN Own(e.p, "server") ELSE UNCHANGED ports
    [] e.e = "stop" -> /\ Report(IF e.cb # 0 THEN {"L_cb"} ELSE {})
                       /\ IF Owner(e.p) = "server" THEN Own(e.p, "free") ELSE UNCHANGED ports
    [] e.e = "occupy" -> IF e.n = 1 THEN Own(e.p, "held") ELSE UNCHANGED ports
    [] e.e = "free" -> IF Owner(e.p) = "held" THEN Own(e.p, "free") ELSE UNCHANGED ports
    [] OTHER -> UNCHANGED ports

Event ==
  /\ l \in 1..Len(Ev)
  /\ LET e == Ev[l] IN
       CASE e.e = "clock" -> /\ clock' = <<e.n, e.m>>
                             /\ conn' = [c \in DOMAIN conn |->
                                   IF conn[c].st = "open" THEN [conn[c] EXCEPT !.clocks = @ \cup {<<e.n, e.m>>}]
                                   ELSE conn[c]]
                             /\ UNCHANGED <<ports, files>>
         [] e.e = "fs" -> files' = WithFile(files, e.f) /\ UNCHANGED <<conn, clock, ports>>
         [] e.c > 0 /\ e.c <= Len(Sc.conns) ->
              /\ Client(e) /\ UNCHANGED <<clock, ports>>
              /\ e.e # "call" => UNCHANGED files
         [] e.e \in {"start", "stop", "occupy", "free"} -> Server(e) /\ UNCHANGED <<conn, clock, files>>
         [] e.e = "call" -> Report({"C_stray"}) /\ Keep
         [] OTHER -> Keep

Next == /\ (Register \/ Event)
        /\ l' = l + 1
        /\ UNCHANGED <<k, routes>>
(* a case has one behaviour: its position identifies the state *)
At == <<k, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
