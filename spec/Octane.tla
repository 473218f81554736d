------------------------------- MODULE Octane -------------------------------
(* The abstract server: an application (handlers in registration order) and *)
(* connections that each carry one request and get one response.            *)
(*                                                                          *)
(* Every step of the machine is described by the set of ways in which it    *)
(* could be wrong (its tags): a step with no tags is a step of the machine. *)
(* MC_Octane takes exactly the steps without tags and checks what they      *)
(* imply; Trace takes the steps a real server was observed to make and      *)
(* reports those with tags.                                                 *)
EXTENDS Head, Response

(* --- application ---------------------------------------------------------*)
(* a registration: [k, p, h, prog, flow]; a mount: [k |-> "mount", routes]  *)
Flatten(app) ==
  FlattenSeq([i \in 1..Len(app) |->
     IF app[i].k = "mount"
     THEN [j \in 1..Len(app[i].routes) |-> [r |-> app[i].routes[j], mounted |-> TRUE]]
     ELSE <<[r |-> app[i], mounted |-> FALSE]>>])
RegOk(r) == r.k = "use" \/ Normal(r.p).ok
(* what each registration call must return *)
RegResults(app) == LET f == Flatten(app) IN [i \in 1..Len(f) |-> RegOk(f[i].r)]
(* the handlers in force, in order *)
Routes(app) ==
  LET f == SelectSeq(Flatten(app), LAMBDA x : RegOk(x.r))
  IN [i \in 1..Len(f) |->
        [k |-> f[i].r.k, h |-> f[i].r.h, prog |-> f[i].r.prog, flow |-> f[i].r.flow,
         mounted |-> f[i].mounted,
         pat |-> IF f[i].r.k = "use" THEN <<>> ELSE Normal(f[i].r.p).segs]]

KindMethod == [get |-> "GET", post |-> "POST", put |-> "PUT", delete |-> "DELETE",
               patch |-> "PATCH", head |-> "HEAD"]
KindOk(k, method) == k \in {"all", "use"} \/ (k \in DOMAIN KindMethod /\ KindMethod[k] = method)
Qualifies(r, req) == KindOk(r.k, req.method) /\ (r.k = "use" \/ Matches(r.pat, req.segs))
Matching(routes, req) == SelectSeq(routes, LAMBDA r : Qualifies(r, req))
Panics(r) == \E i \in 1..Len(r.prog) : r.prog[i].o = "panic"
LastRun(r) == r.flow = "stop" \/ Panics(r)
(* the handlers a request runs *)
Chain(routes, req) ==
  LET m == Matching(routes, req)
      stops == {i \in 1..Len(m) : LastRun(m[i])}
  IN IF stops = {} THEN m ELSE Take(m, Min(stops))

(* --- connections ---------------------------------------------------------*)
NewConn == [st |-> "new", sent |-> 0, eof |-> FALSE, loose |-> FALSE, clocks |-> {},
            ran |-> 0, res |-> Fresh, panicked |-> FALSE, calls |-> <<>>]
(* what a client says: literal bytes and possibly a generated tail *)
TailLen(cl) == IF cl.tail = <<>> THEN 0 ELSE cl.tail[2]
MeaningOf(cl, cn) ==
  LET n == IF cn.sent < Len(cl.bytes) THEN cn.sent ELSE Len(cl.bytes)
  IN Meaning(Take(cl.bytes, n), cn.sent, cn.eof)
BodyOf(cl, m) ==
  IF m.bodyLen = 0 THEN Lit(<<>>)
  ELSE IF m.bodyAt > Len(cl.bytes) /\ cl.tail # <<>> THEN Gen(cl.tail[1], m.bodyLen)
  ELSE Lit(SubSeq(cl.bytes, m.bodyAt, m.bodyAt + m.bodyLen - 1))

(* what a handler sees, field by field, against what was logged *)
ViewTags(ev, cl, m, r) ==
  LET has(f) == f \in DOMAIN ev IN
     (IF has("meth") /\ ev.meth # MethodShown(m.method) THEN {"V_meth"} ELSE {})
     \cup (IF has("ver") /\ ev.ver # VersionShown(m.version) THEN {"V_ver"} ELSE {})
     \cup (IF has("hdr") /\ (ToSet(ev.hdr) # HdrMap(m.hs) \/ Len(ev.hdr) # Cardinality(HdrNames(m.hs)))
           THEN {"V_hdr"} ELSE {})
     \cup (IF has("raw") /\ ev.raw # [i \in 1..Len(m.hs) |-> <<m.hs[i].name, m.hs[i].val>>]
           THEN {"V_raw"} ELSE {})
     \cup (IF has("body") /\ ~SameBody(ev.body, BodyOf(cl, m)) THEN {"V_body"} ELSE {})
     \cup (IF has("ck") /\ ev.ck # Cookies(m.hs) THEN {"V_ck"} ELSE {})
     \cup (IF has("q") /\ ToSet(ev.q) # Flat(m.query) THEN {"V_q"} ELSE {})
     \cup (IF has("xq") /\ {[ev.xq[i] EXCEPT !.o = ToSet(@)] : i \in 1..Len(ev.xq)} # Extended(m.query)
           THEN {"V_xq"} ELSE {})
     \cup (IF has("vars") /\ ToSet(ev.vars) # (IF r.k = "use" THEN {} ELSE Bindings(r.pat, m.segs))
           THEN {"V_vars"} ELSE {})

(* Invoke: handler ev.n finishes on this connection *)
InvokeTags(cl, cn, routes, env, ev) ==
  LET m == MeaningOf(cl, cn) IN
  CASE m.why = "pending" -> {"C_early"}
    [] m.why = "bad" -> {"C_ran", "C_ran_" \o m.reason}
    [] OTHER ->
       LET all == Matching(routes, m)
           ch == Chain(routes, m)
           at == {i \in 1..Len(all) : all[i].h = ev.n}
           mt == IF \E i \in 1..Len(routes) : routes[i].h = ev.n /\ routes[i].mounted
                 THEN {"C_mount"} ELSE {}
       IN CASE cn.panicked -> {"C_afterpanic"}
            [] at = {} -> {"C_nomatch"} \cup mt
            [] at # {} /\ Min(at) <= cn.ran -> {"C_repeat"} \cup mt
            [] at # {} /\ Min(at) > cn.ran /\ cn.ran >= Len(ch) -> {"C_afterstop"} \cup mt
            [] at # {} /\ Min(at) > cn.ran + 1 -> {"C_order"} \cup mt
            [] OTHER -> LET r == ch[cn.ran + 1]
                            p == RunProg(r.prog, 1, cn.res, env, ev.obs)
                        IN ViewTags(ev, cl, m, r) \cup (IF p.ok THEN {} ELSE {"O_obs"})
Invoked(cl, cn, routes, env, ev) ==
  LET m == MeaningOf(cl, cn)
      r == Chain(routes, m)[cn.ran + 1]
  IN [cn EXCEPT !.ran = @ + 1, !.panicked = Panics(r),
                !.res = RunProg(r.prog, 1, cn.res, env, ev.obs).res]

FilesInvoked(cl, cn, routes, env, ev) ==
  LET r == Chain(routes, MeaningOf(cl, cn))[cn.ran + 1]
  IN IF \E i \in 1..Len(r.prog) : r.prog[i].o \in {"fput", "fgrow", "frm"}
     THEN RunProg(r.prog, 1, cn.res, env, ev.obs).files ELSE env.files

(* Which of the handlers that had to run did not. A handler that stops the *)
(* chain out of turn excuses those behind it, whatever brought it there.   *)
Missing(routes, m, calls) ==
  LET ch == Chain(routes, m)
      called == ToSet(calls)
      early == {i \in 1..Len(routes) : /\ routes[i].h \in called /\ LastRun(routes[i])
                                       /\ \A j \in 1..Len(ch) : ch[j].h # routes[i].h}
  IN IF early # {} THEN {} ELSE {j \in 1..Len(ch) : ch[j].h \notin called}
MissingTags(routes, m, calls) ==
  LET miss == Missing(routes, m, calls) IN
  IF miss = {} THEN {}
  ELSE {"C_missing"} \cup (IF Chain(routes, m)[Min(miss)].mounted THEN {"C_mount"} ELSE {})

(* Respond: the client has read everything up to the end of the connection *)
WireCode(h) == LET sp == FindB(h, SP) IN IF sp = 0 \/ Len(h) < sp + 3 THEN <<>> ELSE SubSeq(h, sp + 1, sp + 3)
RespondTags(cl, cn, routes, ev) ==
  LET m == MeaningOf(cl, cn) IN
  CASE cn.loose \/ cn.panicked \/ m.why = "pending" -> {}
    [] ev.end = "timeout" -> {"R_hang"} \cup (IF m.why = "bad" THEN {"R_hang_" \o m.reason} ELSE {})
    [] ev.end \in {"refused", "none"} -> {"R_refused"}
    [] ev.n = 0 -> {"R_none"} \cup (IF m.why = "bad" THEN {"R_none_" \o m.reason} ELSE {})
                   \cup (IF m.why = "handled" THEN MissingTags(routes, m, cn.calls) ELSE {})
    [] m.why = "bad" -> LET t == ErrorTags(m.codes, ev.head, ev.body, cn.clocks)
                        IN t \cup (IF "R_class" \in t THEN {"R_class_" \o m.reason} ELSE {})
    [] OTHER -> IF cn.st = "lost" \/ cn.ran < Len(Chain(routes, m))
                THEN MissingTags(routes, m, cn.calls)
                     \cup (IF cn.calls = <<>> /\ WireCode(ev.head) \in {B("400"), B("501")}
                           THEN {"R_rejected"} ELSE {})
                ELSE IF cn.res.hasBody
                THEN LET t == WireTags(cn.res, ev.head, ev.body)
                     IN t \cup (IF "R_code" \in t /\ WireCode(ev.head) = B("404") THEN {"R_theirs"} ELSE {})
                ELSE LET t == ErrorTags({404}, ev.head, ev.body, cn.clocks)
                     IN t \cup (IF "R_class" \in t THEN {"R_class_404"} ELSE {})

(* --- ports ---------------------------------------------------------------*)
(* a port slot is "free", "held" (by someone else) or the server using it   *)
StartTags(owner, ev) ==
  IF owner = "free"
  THEN (IF ev.cb # 1 THEN {"L_cb"} ELSE {})
       \cup (IF ev.cb > 0 /\ ~ev.conn THEN {"L_conn"} ELSE {})
       \cup (IF ev.ret # "running" THEN {"L_ret"} ELSE {})
  ELSE (IF ev.cb # 0 THEN {"L_cb"} ELSE {}) \cup (IF ev.ret # "err" THEN {"L_ret"} ELSE {})
=============================================================================
