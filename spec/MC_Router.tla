------------------------------ MODULE MC_Router ------------------------------
(* C01-C05: every history of registrations and mounts up to a bound; the    *)
(* implementation's dispatch must equal the declarative one for every       *)
(* request of the model.                                                    *)
EXTENDS RouterImpl
CONSTANTS MaxOps, KindSet, PatternStrs, PathStrs

NoVars == FALSE
VARIABLES app, open, main, side, n
vars == <<app, open, main, side, n>>
(* app: the history as Octane sees it (its last element is the mount being  *)
(* filled when open); main/side: the implementation's routers               *)
Rec(k, p, h) == [k |-> k, p |-> p, h |-> h, prog |-> <<>>, flow |-> "next", routes |-> <<>>]
Init == app = <<>> /\ open = FALSE /\ main = EmptyRouter /\ side = EmptyRouter /\ n = 0
Pats == {B(p) : p \in PatternStrs}
PatsFor(k) == IF k = "use" THEN {<<>>} ELSE Pats
Reg == /\ n < MaxOps /\ ~open
       /\ \E k \in KindSet : \E p \in PatsFor(k) :
            /\ app' = Append(app, Rec(k, p, n + 1))
            /\ main' = AddRoute(main, k, p, n + 1)
       /\ n' = n + 1 /\ UNCHANGED <<open, side>>
Begin == /\ n < MaxOps /\ ~open
         /\ app' = Append(app, [k |-> "mount", p |-> <<>>, h |-> 0, prog |-> <<>>, flow |-> "next", routes |-> <<>>])
         /\ open' = TRUE /\ side' = EmptyRouter /\ n' = n + 1 /\ UNCHANGED main
RegSide == /\ n < MaxOps /\ open
           /\ \E k \in KindSet : \E p \in PatsFor(k) :
                /\ app' = [app EXCEPT ![Len(app)].routes = Append(@, Rec(k, p, n + 1))]
                /\ side' = AddRoute(side, k, p, n + 1)
           /\ n' = n + 1 /\ UNCHANGED <<open, main>>
Mount == /\ open
         /\ main' = Append2(main, side) /\ side' = EmptyRouter /\ open' = FALSE
         /\ UNCHANGED <<app, n>>
Next == Reg \/ Begin \/ RegSide \/ Mount
Spec == Init /\ [][Next]_vars

Methods == {"GET", "POST", "OPTIONS"}
Requests == {[method |-> m, segs |-> Normal(B(p)).segs] : m \in Methods, p \in PathStrs}
Hs(ms) == [i \in 1..Len(ms) |-> ms[i].h]
(* indices are unique, so the order never depends on tie breaking *)
AllIdx == UNION {UNION {{main.trees[m][q][i].idx : i \in 1..Len(main.trees[m][q])} : q \in DOMAIN main.trees[m]} : m \in DOMAIN main.trees}
          \cup {main.mw[i].idx : i \in 1..Len(main.mw)}
UniqueIdx == ~open => LET f == SelectSeq(Flatten(app), LAMBDA x : RegOk(x.r))
                      IN Cardinality(AllIdx) = Len(f) /\ \A i \in AllIdx : i < main.count
(* C01, C02, C03: the same handlers in the same order as declared; a mount   *)
(* is its routes registered in place; C05: bindings name exactly the         *)
(* pattern's variables                                                       *)
Inline == LET f == Flatten(app) IN [i \in 1..Len(f) |-> f[i].r]
SameDispatch == ~open =>
  LET rts == Eager(Routes(app))
      inl == Eager(Routes(Inline))
  IN \A req \in Requests :
       LET m == Eager(Matching(rts, req)) IN
       /\ Dispatch(main, req.method, req.segs) = Hs(m)
       /\ Hs(Matching(inl, req)) = Hs(m)
       /\ \A i \in 1..Len(m) : m[i].k # "use" =>
            {b[1] : b \in Bindings(m[i].pat, req.segs)} = {VarName(m[i].pat[j]) : j \in VarPositions(m[i].pat)}
=============================================================================
