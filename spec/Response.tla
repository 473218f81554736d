------------------------------ MODULE Response ------------------------------
(* The response a request accumulates while its handlers run, and what that *)
(* response must look like on the wire.                                     *)
EXTENDS Tables, Civil

(* A body: [k |-> "b", b |-> bytes, s |-> 0, n |-> length], or              *)
(* [k |-> "g", b |-> <<>>, s |-> seed, n |-> length] for generated content. *)
Lit(bs) == [k |-> "b", b |-> bs, s |-> 0, n |-> Len(bs)]
Gen(seed, len) == [k |-> "g", b |-> <<>>, s |-> seed, n |-> len]
SameBody(x, y) == /\ x.n = y.n
                  /\ x.n = 0 \/ (x.k = y.k /\ IF x.k = "b" THEN x.b = y.b ELSE x.s = y.s)

(* A header: n its lower-case name, v its value, cs a charset parameter the *)
(* value carries; kind "any" marks a value that contained line breaks.      *)
Breaks == {CR, LF}
NewHdr(name, val, cs) ==
  [n |-> Lower(name), v |-> Trim(val, OWS), cs |-> cs,
   kind |-> IF NoneIn(name, Breaks) THEN IF NoneIn(val, Breaks) /\ NoneIn(cs, Breaks) THEN "exact" ELSE "anyval" ELSE "any"]

Fresh == [status |-> 200, reason |-> Reason[200], ver |-> B("1.1"), hasBody |-> FALSE,
          body |-> Lit(<<>>), len |-> -1, hdrs |-> <<>>, charset |-> <<>>, cookies |-> <<>>]

HasHdr(res, name) == \E i \in 1..Len(res.hdrs) : res.hdrs[i].n = Lower(name)
GetHdr(res, name) == LET i == CHOOSE j \in 1..Len(res.hdrs) : res.hdrs[j].n = Lower(name)
                     IN res.hdrs[i]
SetHdr(res, name, val, cs) ==
  [res EXCEPT !.hdrs = Append(SelectSeq(@, LAMBDA h : h.n # Lower(name)), NewHdr(name, val, cs))]

CT == B("content-type")
CL == B("content-length")
DATE == B("date")
(* Content-Length, Date and, when nobody chose one, a Content-Type *)
Defaults(res, clock) ==
  LET r1 == IF res.len >= 0 THEN SetHdr(res, CL, Dec(res.len), <<>>) ELSE res
      r2 == SetHdr(r1, DATE, ImfDate(clock[1], clock[2]), <<>>)
  IN IF HasHdr(r2, CT) THEN r2 ELSE SetHdr(r2, CT, B("text/html"), res.charset)
WithBody(res, body, clock) ==
  Defaults([res EXCEPT !.body = body, !.hasBody = TRUE, !.len = body.n], clock)

JsonArr(bs) == <<91>> \o Join([i \in 1..Len(bs) |-> Dec(bs[i])], <<44>>) \o <<93>>

(* files: records [name, k, b, s, n]; k = "d" is a directory *)
FileAt(files, name) == {i \in 1..Len(files) : files[i].name = name}
IsFile(files, name) == \E i \in FileAt(files, name) : files[i].k # "d"
FileBody(files, name) ==
  LET f == files[CHOOSE i \in FileAt(files, name) : TRUE]
  IN IF f.k = "g" THEN Gen(f.s, f.n) ELSE Lit(f.b)

VersionText(n) == CASE n = 11 -> B("1.1") [] n = 10 -> B("1.0") [] n = 20 -> B("2.0") [] OTHER -> B("0.9")
(* a cookie and its attributes: op.n has a bit for each *)
Bit(n, k) == (n \div k) % 2 = 1
CookieLine(op) ==
  op.a \o <<61>> \o op.b
  \o (IF Bit(op.n, 1) THEN B("; HttpOnly") ELSE <<>>)
  \o (IF Bit(op.n, 2) THEN B("; SameSite=Strict") ELSE <<>>)
  \o (IF Bit(op.n, 64) THEN B("; SameSite=Lax") ELSE <<>>)
  \o (IF Bit(op.n, 4) THEN B("; Secure") ELSE <<>>)
  \o (IF Bit(op.n, 8) THEN B("; Path=") \o op.c ELSE <<>>)
  \o (IF Bit(op.n, 16) THEN B("; Domain=") \o op.c ELSE <<>>)
  \o (IF Bit(op.n, 32) THEN B("; Max-Age=") \o Dec(op.m) ELSE <<>>)

(* one response operation; env carries the clock and the files *)
Apply(op, res, env) ==
  CASE op.o = "send" -> WithBody(res, Lit(op.a), env.clock)
    [] op.o = "sendg" -> WithBody(res, Gen(op.n, op.m), env.clock)
    [] op.o = "status" -> [res EXCEPT !.status = op.n, !.reason = Reason[op.n]]
    [] op.o = "statusx" -> [res EXCEPT !.status = op.n, !.reason = Upper(op.a)]
    [] op.o = "set" -> SetHdr(res, op.a, op.b, <<>>)
    [] op.o = "type" -> SetHdr(res, CT, op.a, <<>>)
    [] op.o = "redirect" -> SetHdr([res EXCEPT !.status = 302, !.reason = Reason[302]], B("location"), op.a, <<>>)
    [] op.o = "hraw" -> SetHdr(res, op.a, op.b, <<>>)
    [] op.o = "sraw" -> [res EXCEPT !.status = op.n, !.reason = Reason[op.n]]
    [] op.o = "craw" -> [res EXCEPT !.cookies = Append(@, op.a \o <<61>> \o op.b)]
    [] op.o = "cookie" -> [res EXCEPT !.cookies = Append(@, CookieLine(op))]
    [] op.o = "charset" -> [res EXCEPT !.charset = op.a]
    [] op.o = "attach" -> SetHdr(res, B("content-disposition"), B("attachment"), <<>>)
    [] op.o = "attachf" -> SetHdr(SetHdr(res, B("content-disposition"),
                                B("attachment; filename = ") \o <<34>> \o op.a \o <<34>>, <<>>),
                              CT, MimeFor(op.a), <<>>)
    [] op.o = "defhdr" -> Defaults(res, env.clock)
    [] op.o = "version" -> [res EXCEPT !.ver = VersionText(op.n)]
    [] op.o = "file" -> IF IsFile(env.files, op.a)
                        THEN WithBody(SetHdr(res, CT, MimeFor(op.a), <<>>), FileBody(env.files, op.a), env.clock)
                        ELSE res
    [] op.o = "json" /\ op.m = 2 -> res
    [] op.o = "json" /\ op.m = 1 -> WithBody(SetHdr(res, CT, B("application/json"), <<>>), Lit(op.b), env.clock)
    [] op.o = "json" -> WithBody(SetHdr(res, CT, B("application/json"), <<>>), Lit(JsonArr(op.a)), env.clock)
    [] OTHER -> res   \* get, sent, gate, panic: no effect on the response

(* does value w carry what header h asks for *)
ValueOk(h, w) ==
  CASE h.kind # "exact" -> TRUE
    [] h.kind = "exact" /\ h.cs = <<>> -> w = h.v
    [] OTHER -> LET c == FindB(w, 59)
                    p == Trim(Drop(w, c), OWS)
                IN /\ c > 0 /\ Trim(Take(w, c - 1), OWS) = h.v
                   /\ StartsWith(Lower(p), B("charset="))
                   /\ Trim(Drop(p, 8), {34}) = h.cs

(* what an observing operation must report *)
Observes(op) == op.o \in {"file", "json", "get", "sent"}
ObsOk(op, res, env, o) ==
  /\ o.k = op.o
  /\ CASE op.o = "file" -> o.s = IsFile(env.files, op.a)
       [] op.o = "json" -> o.s = (op.m # 2)
       [] op.o = "get" -> /\ o.s = HasHdr(res, op.a)
                          /\ o.s => ValueOk(GetHdr(res, op.a), Trim(o.v, OWS))
       [] OTHER -> o.s = (res.hdrs # <<>>)

(* handlers can also change the files themselves *)
Without(files, name) == SelectSeq(files, LAMBDA f : f.name # name)
WithFile(files, f) == IF f.k = "x" THEN Without(files, f.name) ELSE Append(Without(files, f.name), f)
FilesAfter(op, files) ==
  CASE op.o = "fput" -> WithFile(files, [name |-> op.a, k |-> "b", b |-> op.b, s |-> 0, n |-> Len(op.b)])
    [] op.o = "fgrow" -> [i \in 1..Len(files) |-> IF files[i].name = op.a THEN [files[i] EXCEPT !.b = @ \o op.b] ELSE files[i]]
    [] op.o = "frm" -> Without(files, op.a)
    [] OTHER -> files

RECURSIVE RunProg(_, _, _, _, _)
(* the response and the files after a handler's program, and whether every  *)
(* observation the handler made on the way was right                        *)
RunProg(prog, i, res, env, obs) ==
  IF i > Len(prog) THEN [res |-> res, files |-> env.files, ok |-> obs = <<>>]
  ELSE LET op == prog[i] IN
    IF Observes(op)
    THEN IF obs = <<>> THEN [res |-> res, files |-> env.files, ok |-> FALSE]
         ELSE LET r == RunProg(prog, i + 1, Apply(op, res, env), env, Tail(obs))
              IN [r EXCEPT !.ok = @ /\ ObsOk(op, res, env, Head(obs))]
    ELSE IF op.o \in {"fput", "fgrow", "frm"}
    THEN RunProg(prog, i + 1, res, [env EXCEPT !.files = FilesAfter(op, @)], obs)
    ELSE RunProg(prog, i + 1, Apply(op, res, env), env, obs)

(* --- the wire ------------------------------------------------------------ *)
(* the header lines of a head, as [n, v]; a line without a colon has n empty *)
WireLine(l) == LET c == FindB(l, 58)
               IN [n |-> IF c > 1 THEN Lower(Take(l, c - 1)) ELSE <<>>,
                   v |-> IF c > 1 THEN Trim(Drop(l, c), OWS) ELSE <<>>]
HeadComplete(h) == Len(h) >= 4 /\ SubSeq(h, Len(h) - 3, Len(h)) = <<13, 10, 13, 10>>
WireLines(h) == Split2(Take(h, Len(h) - 4), CRLF)
WireHdrs(h) == LET ls == WireLines(h) IN Eager([i \in 1..(Len(ls) - 1) |-> WireLine(ls[i + 1])])
Count(ws, n) == Cardinality({i \in 1..Len(ws) : ws[i].n = n})
Values(ws, n) == LET m == SelectSeq(ws, LAMBDA w : w.n = n) IN [i \in 1..Len(m) |-> m[i].v]
SETC == B("set-cookie")

StatusLine(ver, code, reason) == B("HTTP/") \o ver \o <<SP>> \o Pad(code, 3) \o <<SP>> \o reason

(* the ways in which the head and body a client received differ from the    *)
(* response res; the empty set means the wire is exactly as it must be      *)
FrameTags(h, body) ==
  LET ls == WireLines(h)
      ws == WireHdrs(h)
  IN (IF \E i \in 1..Len(ls) : ~NoneIn(ls[i], Breaks) THEN {"R_break"} ELSE {})
     \cup (IF \E i \in 1..Len(ws) : ws[i].n = <<>> THEN {"R_line"} ELSE {})
     \cup (IF Count(ws, CL) # 1 THEN {"R_clcount"} ELSE {})
     \cup (IF Count(ws, CL) > 0 /\ Values(ws, CL)[1] # Dec(body.n) THEN {"R_cl"} ELSE {})

HeaderTags(res, h) ==
  LET ws == WireHdrs(h)
      exp == res.hdrs
      any == {i \in 1..Len(exp) : exp[i].kind = "any"}
      named == {i \in 1..Len(exp) : exp[i].kind # "any"}
      names == {exp[i].n : i \in named}
      tagOf(n) == CASE n = CT -> "R_ctype" [] n = DATE -> "R_date" [] n = CL -> "R_cl" [] OTHER -> "R_hdr"
      dirtyC == {i \in 1..Len(res.cookies) : ~NoneIn(res.cookies[i], Breaks)}
      wc == Values(ws, SETC)
  IN UNION {LET hd == exp[i]
                vs == Values(ws, hd.n)
                extra == IF hd.n = SETC THEN Len(res.cookies) ELSE 0
            IN (IF Len(vs) # 1 + extra THEN {"R_count", tagOf(hd.n)} ELSE {})
               \cup (IF extra = 0 /\ \E j \in 1..Len(vs) : ~ValueOk(hd, vs[j]) THEN {tagOf(hd.n)} ELSE {}) : i \in named}
     \cup (IF Cardinality({i \in 1..Len(ws) : ws[i].n \notin names \cup {SETC}}) # Cardinality(any)
           THEN {"R_extra"} ELSE {})
     \cup (IF SETC \in names THEN {}
           ELSE IF Len(wc) # Len(res.cookies) THEN {"R_ckcount"}
           ELSE IF \E i \in 1..Len(wc) : i \notin dirtyC /\ wc[i] # Trim(res.cookies[i], OWS) THEN {"R_cookie"} ELSE {})

WireTags(res, h, body) ==
  IF ~HeadComplete(h) THEN {"R_head"}
  ELSE LET ls == WireLines(h)
           want == StatusLine(res.ver, res.status, res.reason)
       IN (IF ls[1] # want
           THEN {"R_status"} \cup (IF StartsWith(Drop(ls[1], 5 + Len(res.ver)), <<SP>> \o Pad(res.status, 3) \o <<SP>>)
                                   THEN {"R_reason"} ELSE {"R_code"})
           ELSE {})
          \cup FrameTags(h, body) \cup HeaderTags(res, h)
          \cup (IF SameBody(res.body, body) THEN {} ELSE {"R_body"})

(* an answer the server itself gives: code in codes, properly framed, dated  *)
(* within the clock values the connection has lived through                  *)
ErrorTags(codes, h, body, clocks) ==
  IF ~HeadComplete(h) THEN {"R_head"}
  ELSE LET ls == WireLines(h)
           ws == WireHdrs(h)
       IN (IF ls[1] \notin {StatusLine(B("1.1"), c, Reason[c]) : c \in codes}
           THEN {"R_class"} ELSE {})
          \cup FrameTags(h, body)
          \cup (IF Count(ws, DATE) = 1 /\ Values(ws, DATE)[1] \in {ImfDate(c[1], c[2]) : c \in clocks}
                THEN {} ELSE {"R_date"})
          \cup (IF Count(ws, CT) = 1 THEN {} ELSE {"R_ctype"})
          \cup (IF \E i \in 1..Len(ws) : ws[i].n \notin {CT, CL, DATE} THEN {"R_extra"} ELSE {})
=============================================================================
