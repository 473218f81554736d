----------------------------- MODULE MC_Reader ------------------------------
(* C06-C09: reading a request. The client sends a stream in arbitrary pieces *)
(* and may end its side at any point; the server reads at most Chunk bytes   *)
(* at a time, looks for the end of the head after each read and then, if a   *)
(* body is announced, reads exactly what is missing of it (octane_http's     *)
(* Http1xReader and Request::from_raw). Whatever the pieces, the verdict is  *)
(* the one the bytes have as a whole.                                        *)
EXTENDS Octane
CONSTANTS Chunk, Which
(* got: how many bytes the server has read *)
(* row: the meanings of the prefixes of the stream (never changes)         *)
VARIABLES bs, row, sent, eof, phase, got, verdict
vars == <<bs, row, sent, eof, phase, got, verdict>>

Streams == Eager(<<
  B("GET / HTTP/1.1") \o CRLF \o B("Host:") \o CRLF \o CRLF,
  B("GET / HTTP/1.0") \o CRLF \o CRLF,
  B("PUT / HTTP/1.0") \o CRLF \o B("Content-Length: 3") \o HeadEnd \o <<13, 10, 13>>,
  B("PUT / HTTP/1.0") \o CRLF \o B("Content-Length: 2") \o HeadEnd \o <<13, 10, 13, 10, 97>>,
  B("X / HTTP/1.0") \o HeadEnd,
  B("GET / HTTP/1.1") \o HeadEnd,
  B("GET /.. HTTP/1.0") \o HeadEnd,
  B("GET /") \o <<13, 13, 10>> \o B("a") \o HeadEnd,
  B("A") \o <<13, 10, 13, 13, 10, 13, 10>>,
  <<13, 10, 13, 10, 13, 10>>,
  B("PUT / HTTP/1.0") \o CRLF \o B("content-length:0") \o HeadEnd \o <<120>>,
  B("GET /?q HTTP/1.0") \o CRLF \o <<195, 40>> \o HeadEnd >>)
None == [why |-> "none", body |-> <<>>]
Rejected == [why |-> "bad", body |-> <<>>]
(* what the first n bytes mean, and what the server makes of a head it has  *)
(* found in them                                                            *)
MeaningAt(b, n, e) ==
  LET m == Meaning(Take(b, n), n, e)
  IN IF m.why = "handled"
     THEN [why |-> "handled", body |-> SubSeq(b, m.bodyAt, m.bodyAt + m.bodyLen - 1)]
     ELSE [why |-> m.why, body |-> <<>>]
HeadIn(d) ==
  LET at == Find(d, HeadEnd) IN
  IF at = 0 THEN [ok |-> FALSE, at |-> 0, need |-> 0, fit |-> FALSE]
  ELSE LET p == ParseHead(Take(d, at - 1))
           host == VersionShown(p.line.version) = "Http11" => HOST \in HdrNames(p.hs)
       IN [ok |-> p.ok, at |-> at, need |-> IF p.ok THEN ContentLength(p.hs) ELSE 0,
           fit |-> p.ok /\ host /\ p.line.method \in DOMAIN MethodOf]
Row(b) == Eager([j \in 1..(Len(b) + 1) |->
            [open |-> MeaningAt(b, j - 1, FALSE), ended |-> MeaningAt(b, j - 1, TRUE),
             head |-> HeadIn(Take(b, j - 1))]])
Mean(n, e) == IF e THEN row[n + 1].ended ELSE row[n + 1].open
mean == Mean(sent, eof)
head == row[got + 1].head
Init == bs \in {Streams[i] : i \in Which} /\ row = Row(bs) /\ sent = 0 /\ eof = FALSE /\ phase = "head" /\ got = 0 /\ verdict = None
(* the client *)
Send == /\ ~eof /\ sent < Len(bs) /\ sent' = sent + 1
        /\ UNCHANGED <<bs, row, eof, phase, got, verdict>>
End == ~eof /\ eof' = TRUE /\ UNCHANGED <<bs, row, sent, phase, got, verdict>>
(* the server *)
Avail == sent - got
Least(a, b) == IF a < b THEN a ELSE b
ReadHead == /\ phase = "head" /\ Avail > 0
            /\ \E k \in 1..Least(Avail, Chunk) :
                 /\ got' = got + k
                 /\ phase' = IF row[got + k + 1].head.at > 0 THEN "body" ELSE "head"
            /\ UNCHANGED <<bs, row, sent, eof, verdict>>
Lack == head.at + 3 + head.need - got
ReadBody == /\ phase = "body" /\ head.ok /\ Lack > 0 /\ Avail > 0
            /\ \E k \in 1..Least(Avail, Lack) : got' = got + k
            /\ UNCHANGED <<bs, row, sent, eof, phase, verdict>>
Finish == /\ phase = "body" /\ (~head.ok \/ Lack <= 0)
          /\ verdict' = IF ~head.fit THEN Rejected
                        ELSE [why |-> "handled", body |-> SubSeq(bs, head.at + 4, head.at + 3 + head.need)]
          /\ phase' = "done" /\ UNCHANGED <<bs, row, sent, eof, got>>
(* the read returns nothing: the client said no more *)
Eof == /\ eof /\ Avail = 0
       /\ phase = "head" \/ (phase = "body" /\ head.ok /\ Lack > 0)
       /\ verdict' = Rejected /\ phase' = "done" /\ UNCHANGED <<bs, row, sent, eof, got>>
Read == ReadHead \/ ReadBody \/ Finish \/ Eof
Next == Send \/ End \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)

(* nothing is decided early, and what is decided is what the bytes say *)
Verdict == phase = "done" => verdict = mean
(* a request once complete stays the same request whatever follows *)
Settled == [][mean.why = "handled" => mean' = mean]_vars
(* a stream whose meaning is settled is answered even if the client says no more *)
Answered == mean.why # "pending" ~> phase = "done"
=============================================================================
