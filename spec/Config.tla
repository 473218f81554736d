------------------------------- MODULE Config -------------------------------
(* Settings of an application and of a separate configuration (C23).         *)
(* A settings record is [ka, key, cert, port]; ka is in milliseconds, -1     *)
(* when keep-alive is switched off.                                          *)
EXTENDS Integers, Sequences

Default == [ka |-> 5000, key |-> "", cert |-> "", port |-> 443]
Start == [app |-> Default, cfg |-> Default]

(* calls available on either: what one call does to the settings it is made on *)
Set(s, op) ==
  CASE op.o \in {"ka", "fka"} -> [s EXCEPT !.ka = op.n]
    [] op.o = "kaoff" -> [s EXCEPT !.ka = -1]
    [] op.o \in {"sslport", "fport"} -> [s EXCEPT !.port = op.n]
    [] op.o = "sslkey" -> [s EXCEPT !.port = op.n, !.key = op.a]
    [] op.o = "sslcert" -> [s EXCEPT !.port = op.n, !.cert = op.a]
    [] op.o = "sslboth" -> [s EXCEPT !.port = op.n, !.key = op.a, !.cert = op.b]
    [] op.o = "withssl" -> [s EXCEPT !.key = op.a, !.cert = op.b]
    [] op.o = "key" -> [s EXCEPT !.key = op.a]
    [] op.o = "cert" -> [s EXCEPT !.cert = op.a]
    [] OTHER -> s
(* applying hands the configuration over; the caller goes on with a new one *)
Step(st, op) ==
  IF op.o = "apply" THEN [app |-> st.cfg, cfg |-> Default]
  ELSE IF op.t = "app" THEN [st EXCEPT !.app = Set(@, op)]
  ELSE [st EXCEPT !.cfg = Set(@, op)]

(* which settings a call names *)
Names(op) ==
  CASE op.o \in {"ka", "fka", "kaoff"} -> {"ka"}
    [] op.o \in {"sslport", "fport"} -> {"port"}
    [] op.o = "sslkey" -> {"port", "key"}
    [] op.o = "sslcert" -> {"port", "cert"}
    [] op.o = "sslboth" -> {"port", "key", "cert"}
    [] op.o = "withssl" -> {"key", "cert"}
    [] op.o = "key" -> {"key"}
    [] op.o = "cert" -> {"cert"}
    [] OTHER -> {}
Given(op, f) ==
  CASE f = "ka" -> (IF op.o = "kaoff" THEN -1 ELSE op.n) [] f = "port" -> op.n
    [] f = "key" -> op.a
    [] f = "cert" -> IF op.o \in {"sslcert", "cert"} THEN op.a ELSE op.b
(* the value setting f of target t must have after history h: that of the    *)
(* last call that sets it, looking through applications                      *)
RECURSIVE Last(_, _, _, _)
Last(h, i, t, f) ==
  IF i = 0 THEN Default[f]
  ELSE LET op == h[i] IN
       IF op.o = "apply"
       THEN IF t = "app" THEN Last(h, i - 1, "cfg", f) ELSE Default[f]
       ELSE IF op.t = t /\ f \in Names(op) THEN Given(op, f)
       ELSE Last(h, i - 1, t, f)
=============================================================================
