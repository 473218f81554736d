-------------------------------- MODULE Head --------------------------------
(* What a byte stream from a client means: its head, its headers, its body  *)
(* and which of the four answers it deserves.                               *)
EXTENDS Path, Query

HeadEnd == <<13, 10, 13, 10>>
TokenBytes == {CodeOf[SubSeq(t, i, i)] : i \in 1..77,
   t \in {"!#$%&'*+-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ^_`abcdefghijklmnopqrstuvwxyz|~"}}
Ctl == (0..31) \cup {127}
CtlNoTab == Ctl \ {HT}
Digits == 48..57
CONTENTLENGTH == B("content-length")
COOKIE == B("cookie")
HOST == B("host")

MethodName == {"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "CONNECT"}
MethodOf == [m \in {B(n) : n \in MethodName} |-> CHOOSE n \in MethodName : B(n) = m]
(* how a handler sees them *)
MethodShown(m) == CASE m = "GET" -> "Get" [] m = "POST" -> "Post" [] m = "PUT" -> "Put"
   [] m = "DELETE" -> "Delete" [] m = "PATCH" -> "Patch" [] m = "HEAD" -> "Head"
   [] m = "OPTIONS" -> "Options" [] m = "TRACE" -> "Trace" [] OTHER -> "Connect"
V11 == B("1.1")
V10 == B("1.0")
V20 == B("2.0")
V09 == B("0.9")
VersionShown(v) == CASE v = V11 -> "Http11" [] v = V10 -> "Http10"
   [] v = V20 -> "Http02" [] v = V09 -> "Http09" [] OTHER -> "HttpInvalid"

(* --- request line ------------------------------------------------------ *)
HttpSlash == B("HTTP/")
ParseLine(rl) ==
  LET t == SplitB(rl, SP)
      good == Len(t) = 3 /\ StartsWith(t[3], HttpSlash)
      q == IF good THEN FindB(t[2], 63) ELSE 0
      path == IF ~good THEN <<>> ELSE IF q = 0 THEN t[2] ELSE Take(t[2], q - 1)
      n == Normal(path)
  IN [ok |-> good /\ n.ok, escapes |-> good /\ ~n.ok,
      method |-> IF good THEN t[1] ELSE <<>>,
      segs |-> n.segs,
      query |-> IF good /\ q > 0 THEN Drop(t[2], q) ELSE <<>>,
      version |-> IF good THEN Drop(t[3], 5) ELSE <<>>]

(* --- header lines ------------------------------------------------------ *)
ParseHeader(h) ==
  LET c == FindB(h, 58)
      name == Take(h, c - 1)
      val == Trim(Drop(h, c), OWS)
  IN IF c <= 1 THEN [ok |-> FALSE, name |-> <<>>, low |-> <<>>, val |-> <<>>]
     ELSE [ok |-> AllIn(name, TokenBytes) /\ NoneIn(val, CtlNoTab), name |-> name, low |-> Lower(name), val |-> val]

HdrNames(hs) == {hs[i].low : i \in 1..Len(hs)}
HdrVal(hs, n) == LET mine == SelectSeq(hs, LAMBDA h : h.low = n)
                 IN Join([i \in 1..Len(mine) |-> mine[i].val], <<44, 32>>)
HdrMap(hs) == {<<n, HdrVal(hs, n)>> : n \in HdrNames(hs)}

ContentLength(hs) ==
  LET v == HdrVal(hs, CONTENTLENGTH)
  IN IF v # <<>> /\ AllIn(v, Digits) THEN DigitsVal(v) ELSE 0

(* --- cookies ----------------------------------------------------------- *)
White == {9, 10, 11, 12, 13, 32}
ParseCookie(tok) ==
  LET semi == FindB(tok, 59)   \* a value ends at a semicolon
      t == IF semi = 0 THEN tok ELSE Take(tok, semi - 1)
      e == FindB(t, 61)
  IN [ok |-> e > 0 /\ Trim(Take(t, e - 1), White) # <<>>,
      name |-> IF e > 0 THEN Trim(Take(t, e - 1), White) ELSE <<>>,
      val |-> IF e > 0 THEN Trim(Drop(t, e), White) ELSE <<>>]
Cookies(hs) ==
  IF COOKIE \notin HdrNames(hs) THEN <<>>
  ELSE LET toks == Split2(HdrVal(hs, COOKIE), <<59, 32>>)
           cs == SelectSeq([i \in 1..Len(toks) |-> ParseCookie(toks[i])], LAMBDA c : c.ok)
       IN [i \in 1..Len(cs) |-> <<cs[i].name, cs[i].val>>]

(* --- the whole request --------------------------------------------------*)
(* Parse of a head without its terminating empty line.                     *)
ParseHead(h) ==
  LET lines == Split2(h, CRLF)
      line == ParseLine(lines[1])
      hs == Eager([i \in 1..(Len(lines) - 1) |-> ParseHeader(lines[i + 1])])
  IN IF ~ValidUtf8(h)
     THEN [ok |-> FALSE, escapes |-> FALSE, line |-> line, hs |-> <<>>]
     ELSE [ok |-> line.ok /\ \A i \in 1..Len(hs) : hs[i].ok,
           escapes |-> line.escapes, line |-> line, hs |-> hs]

(* What the bytes sent so far (and whether the client has ended its side)  *)
(* call for. total is the number of bytes sent, which may exceed Len(bs)   *)
(* when the tail is a generated body that is not spelled out.              *)
(*   why: "pending"  more bytes are needed                                 *)
(*        "bad"      answer one of codes, run nothing                      *)
(*        "handled"  run the handlers                                      *)
Bad(codes, reason) == [why |-> "bad", codes |-> codes, reason |-> reason]
Meaning(bs, total, eof) ==
  LET he == Find(bs, HeadEnd) IN
  IF he = 0 THEN IF eof THEN Bad({400}, "cut") ELSE [why |-> "pending"]
  ELSE
  LET p == ParseHead(Take(bs, he - 1))
      need == ContentLength(p.hs)
      have == total - (he + 3)
      host == VersionShown(p.line.version) = "Http11" => HOST \in HdrNames(p.hs)
      known == p.line.method \in DOMAIN MethodOf
  IN CASE ~p.ok -> Bad({400}, IF p.escapes THEN "escape" ELSE "head")
       [] p.ok /\ have < need ->
             IF ~eof THEN [why |-> "pending"]
             ELSE Bad(IF known THEN {400} ELSE {400, 501}, "short")
       [] p.ok /\ have >= need /\ ~host -> Bad(IF known THEN {400} ELSE {400, 501}, "host")
       [] p.ok /\ have >= need /\ host /\ ~known -> Bad({501}, "method")
       [] OTHER -> [why |-> "handled", method |-> MethodOf[p.line.method],
                    version |-> p.line.version, segs |-> p.line.segs,
                    query |-> p.line.query, hs |-> p.hs,
                    bodyAt |-> he + 4, bodyLen |-> need]
=============================================================================
