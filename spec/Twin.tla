-------------------------------- MODULE Twin --------------------------------
(* Two executions that must be indistinguishable to the clients they have   *)
(* in common (self-composition). A case holds, for each connection that is  *)
(* compared, what its handlers saw and what its client received in the one  *)
(* run and in the other. This decides the properties that say that          *)
(* something does not matter: how a path is spelled, whether a route was    *)
(* mounted, how bytes were split, who else was connected, which port.       *)
EXTENDS Response, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k
Ids(cs) == [i \in 1..Len(cs) |-> cs[i].n]
(* the handlers' view of the request: every field logged but the bookkeeping *)
Seen(c) == [f \in (DOMAIN c) \ {"c", "n", "e", "obs"} |-> c[f]]
SameSeen(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Seen(a[i]) = Seen(b[i])
SameObs(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].obs = b[i].obs
Bag(ls) == [x \in ToSet(ls) |-> Cardinality({i \in 1..Len(ls) : ls[i] = x})]
SameHead(a, b) ==
  IF HeadComplete(a) /\ HeadComplete(b)
  THEN WireLines(a)[1] = WireLines(b)[1] /\ Bag(WireLines(a)) = Bag(WireLines(b))
  ELSE a = b
Ended(d) == IF d.end \in {"eof", "rst"} THEN "closed" ELSE d.end
PairTags(p) ==
  (IF Ids(p.a.calls) # Ids(p.b.calls) THEN {"T_calls"} ELSE
   (IF ~SameSeen(p.a.calls, p.b.calls) THEN {"T_seen"} ELSE {})
   \cup (IF ~SameObs(p.a.calls, p.b.calls) THEN {"T_obs"} ELSE {}))
  \cup (IF Len(p.a.done) # Len(p.b.done) THEN {"T_end"}
        ELSE UNION {
          LET x == p.a.done[i]
              y == p.b.done[i]
          IN (IF Ended(x) # Ended(y) THEN {"T_end"} ELSE {})
             \cup (IF ~SameHead(x.head, y.head) THEN {"T_head"} ELSE {})
             \cup (IF ~SameBody(x.body, y.body) THEN {"T_body"} ELSE {}) : i \in 1..Len(p.a.done)})
Tags(case) == UNION {PairTags(case.pairs[i]) : i \in 1..Len(case.pairs)}
Init == k \in 1..Len(Cases)
Check == LET t == Tags(Cases[k])
         IN IF t = {} THEN TRUE ELSE PrintT(<<"BAD", Cases[k].id, 0, t>>)
Next == k > 0 /\ Check /\ k' = -k
Spec == Init /\ [][Next]_k
=============================================================================
