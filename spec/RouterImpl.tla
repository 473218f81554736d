----------------------------- MODULE RouterImpl -----------------------------
(* The router as the library builds it (src/router.rs, src/path.rs): one    *)
(* tree of path segments per method, a list of path-less middleware, and a  *)
(* counter that stamps every registration. A tree is a function from node   *)
(* keys (patterns with every variable replaced by CatchAll) to leaves.      *)
EXTENDS Octane

CatchAll == <<-1>>
KeyOf(pat) == [i \in 1..Len(pat) |-> IF IsVar(pat[i]) THEN CatchAll ELSE pat[i]]
EmptyRouter == [count |-> 0, mw |-> <<>>, trees |-> [m \in {} |-> <<>>]]

Insert(tree, pat, idx, h) ==
  LET key == KeyOf(pat)
      leaf == IF key \in DOMAIN tree THEN tree[key] ELSE <<>>
  IN [q \in DOMAIN tree \cup {key} |->
        IF q = key THEN Append(leaf, [pat |-> pat, idx |-> idx, h |-> h]) ELSE tree[q]]
TreeOf(r, m) == IF m \in DOMAIN r.trees THEN r.trees[m] ELSE [q \in {} |-> <<>>]
PutTree(r, m, t) == [r EXCEPT !.trees = [q \in DOMAIN r.trees \cup {m} |-> IF q = m THEN t ELSE r.trees[q]]]

TreeKey(k) == IF k = "all" THEN "ALL" ELSE KindMethod[k]
(* a registration: kind, path, handler. A path above the root is an error  *)
(* and nothing changes.                                                    *)
AddRoute(r, k, path, h) ==
  IF k = "use" THEN [r EXCEPT !.mw = Append(@, [idx |-> r.count, h |-> h]), !.count = @ + 1]
  ELSE LET n == Normal(path) IN
       IF ~n.ok THEN r
       ELSE [PutTree(r, TreeKey(k), Insert(TreeOf(r, TreeKey(k)), n.segs, r.count, h)) EXCEPT !.count = @ + 1]

RECURSIVE Pour(_, _, _)
(* the owned iterator hands a leaf's entries out last first *)
Pour(tree, entries, shift) ==
  IF entries = <<>> THEN tree
  ELSE LET e == entries[Len(entries)]
       IN Pour(Insert(tree, e.pat, e.idx + shift, e.h), Take(entries, Len(entries) - 1), shift)
RECURSIVE PourAll(_, _, _, _)
PourAll(tree, other, keys, shift) ==
  IF keys = {} THEN tree
  ELSE LET q == CHOOSE x \in keys : TRUE
       IN PourAll(Pour(tree, other[q], shift), other, keys \ {q}, shift)
Append2(r, o) ==
  LET ms == DOMAIN r.trees \cup DOMAIN o.trees
  IN [count |-> r.count + o.count,
      mw |-> r.mw \o [i \in 1..Len(o.mw) |-> [o.mw[i] EXCEPT !.idx = @ + r.count]],
      trees |-> [m \in ms |-> IF m \in DOMAIN o.trees
                              THEN PourAll(TreeOf(r, m), o.trees[m], DOMAIN o.trees[m], r.count)
                              ELSE r.trees[m]]]

(* a build without the feature url_variables never looks at variable children *)
UseVars == TRUE
RECURSIVE Dfs(_, _, _)
(* literal child first, then the variable child *)
Dfs(tree, segs, done) ==
  IF segs = <<>> THEN IF done \in DOMAIN tree THEN tree[done] ELSE <<>>
  ELSE Dfs(tree, Tail(segs), Append(done, segs[1]))
       \o (IF UseVars THEN Dfs(tree, Tail(segs), Append(done, CatchAll)) ELSE <<>>)
ByIndex(entries) == SortSeq(entries, LAMBDA a, b : a.idx < b.idx)
RECURSIVE Merge(_)
(* repeatedly take the list whose first entry has the smallest index *)
Merge(lists) ==
  LET live == {i \in 1..Len(lists) : lists[i] # <<>>}
  IN IF live = {} THEN <<>>
     ELSE LET j == CHOOSE i \in live : \A o \in live : o # i =>
                      (lists[i][1].idx < lists[o][1].idx \/ (lists[i][1].idx = lists[o][1].idx /\ i < o))
          IN <<lists[j][1].h>> \o Merge([lists EXCEPT ![j] = Tail(@)])
(* handlers the implementation offers the request to, in order *)
Dispatch(r, method, segs) ==
  Merge(<<ByIndex(Dfs(TreeOf(r, method), segs, <<>>)), ByIndex(Dfs(TreeOf(r, "ALL"), segs, <<>>)), r.mw>>)
=============================================================================
