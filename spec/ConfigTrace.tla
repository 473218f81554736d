---------------------------- MODULE ConfigTrace -----------------------------
(* Recorded configuration histories: case k has the calls `ops` and, in      *)
(* `events`, the settings read back before the first call and after each.    *)
EXTENDS Config, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, l, st
vars == <<k, l, st>>
At == <<k, l>>
Report(tags) == IF tags = {} THEN TRUE ELSE PrintT(<<"BAD", Cases[k].id, l, tags>>)
Diff(got, want) == (IF got.app # want.app THEN {"K_app"} ELSE {}) \cup (IF got.cfg # want.cfg THEN {"K_cfg"} ELSE {})
Init == k \in 1..Len(Cases) /\ l = 0 /\ st = Start
Next == /\ l < Len(Cases[k].events)
        /\ LET want == IF l = 0 THEN Start ELSE Step(st, Cases[k].ops[l])
           IN st' = want /\ Report(Diff(Cases[k].events[l + 1], want))
        /\ l' = l + 1 /\ k' = k
Spec == Init /\ [][Next]_vars
=============================================================================
