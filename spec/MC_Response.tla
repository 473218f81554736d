---------------------------- MODULE MC_Response -----------------------------
(* C14-C17: every short sequence of response operations. The serialiser is   *)
(* described the way the library works (status line, header lines, cookie    *)
(* lines, empty line; line breaks removed); what it writes must be accepted  *)
(* by the wire-level meaning, and the accumulated response obeys the laws    *)
(* the properties state.                                                     *)
EXTENDS Response
CONSTANT MaxOps
O(o, a, b, n, m) == [o |-> o, a |-> a, b |-> b, n |-> n, m |-> m]
Ops == Eager(<<
  O("send", B("hi"), <<>>, 0, 0), O("send", <<>>, <<>>, 0, 0), O("sendg", <<>>, <<>>, 3, 5000),
  O("status", <<>>, <<>>, 404, 0), O("statusx", B("ok then"), <<>>, 299, 0),
  O("set", B("X-A"), B("1"), 0, 0), O("set", B("x-a"), B(" 2 "), 0, 0),
  O("set", B("X-B"), <<97, 13, 10, 98>>, 0, 0), O("set", B("X-C") \o <<10>> \o B("D"), B("v"), 0, 0),
  O("set", B("Set-Cookie"), B("u=1"), 0, 0),
  O("cookie", B("k"), B("v"), 0, 0), O("cookie", B("k"), <<13, 10, 120>>, 1, 0),
  O("type", B("text/css"), <<>>, 0, 0), O("charset", B("utf-8"), <<>>, 0, 0),
  O("redirect", B("/x"), <<>>, 0, 0), O("attachf", B("a.png"), <<>>, 0, 0), O("version", <<>>, <<>>, 10, 0),
  O("file", B("f.txt"), <<>>, 0, 0), O("file", B("none"), <<>>, 0, 0), O("json", <<1, 22>>, <<>>, 0, 0),
  O("defhdr", <<>>, <<>>, 0, 0)>>)
Env == [clock |-> <<20000, 3661>>, files |-> <<[name |-> B("f.txt"), k |-> "b", b |-> B("file"), s |-> 0, n |-> 4]>>]

VARIABLES hist, ops, res
vars == <<hist, ops, res>>
Init == hist = <<>> /\ res = Fresh /\ ops = Ops
Next == /\ Len(hist) < MaxOps
        /\ \E i \in 1..Len(ops) : hist' = Append(hist, i) /\ res' = Apply(ops[i], res, Env)
        /\ ops' = ops
Spec == Init /\ [][Next]_vars

Clean(s) == SelectSeq(s, LAMBDA b : b \notin Breaks)
(* the library keeps the name and value as given; here the stored header     *)
(* stands for them                                                           *)
LineOf(h) == Clean(h.n) \o B(": ") \o Clean(h.v) \o (IF h.cs = <<>> THEN <<>> ELSE B("; charset=") \o h.cs) \o CRLF
Render(r) ==
  StatusLine(r.ver, r.status, r.reason) \o CRLF
  \o FlattenSeq([i \in 1..Len(r.hdrs) |-> LineOf(r.hdrs[i])])
  \o FlattenSeq([i \in 1..Len(r.cookies) |-> B("Set-Cookie: ") \o Clean(r.cookies[i]) \o CRLF])
  \o CRLF

Used == {ops[hist[i]].o : i \in 1..Len(hist)}
WireAccepts == res.hasBody => WireTags(res, Render(res), res.body) = {}
OneEach == \A i, j \in 1..Len(res.hdrs) : res.hdrs[i].n = res.hdrs[j].n => i = j
LengthRight == res.hasBody => /\ HasHdr(res, CL) /\ GetHdr(res, CL).v = Dec(res.body.n)
                              /\ HasHdr(res, DATE) /\ HasHdr(res, CT)
LastStatus == LET m == {i \in 1..Len(hist) : ops[hist[i]].o \in {"status", "statusx", "redirect"}}
              IN IF m = {} THEN res.status = 200
                 ELSE LET op == ops[hist[Max(m)]] IN res.status = IF op.o = "redirect" THEN 302 ELSE op.n
CookiesInOrder == LET m == SelectSeq(hist, LAMBDA i : ops[i].o = "cookie")
                  IN res.cookies = [i \in 1..Len(m) |-> CookieLine(ops[m[i]])]
Bodies == {"send", "sendg", "json"}
LastBody == LET m == {i \in 1..Len(hist) : ops[hist[i]].o \in Bodies \/ (ops[hist[i]].o = "file" /\ ops[hist[i]].a = B("f.txt"))}
            IN (m # {}) = res.hasBody
(* exactly the expected number of lines, none of them broken (C16) *)
LineCount == LET h == Render(res) IN
   /\ Len(WireLines(h)) = 1 + Len(res.hdrs) + Len(res.cookies)
   /\ \A i \in 1..Len(WireLines(h)) : NoneIn(WireLines(h)[i], Breaks)
(* the wire-level meaning is not blind: dropping the last header line, a     *)
(* wrong length and an injected line are all noticed                         *)
Sensitive == res.hasBody =>
   LET h == Render(res)
       ls == WireLines(h)
       without == Join(Take(ls, Len(ls) - 1), CRLF) \o <<13, 10, 13, 10>>
       with == Take(h, Len(h) - 2) \o B("X-Evil: 1") \o CRLF \o CRLF
   IN /\ WireTags(res, without, res.body) # {}
      /\ WireTags(res, with, res.body) # {}
      /\ WireTags(res, h, [res.body EXCEPT !.n = @ + 1]) # {}
=============================================================================
