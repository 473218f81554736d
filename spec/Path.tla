-------------------------------- MODULE Path --------------------------------
(* Request paths and route patterns.                                        *)
EXTENDS Bytes

RECURSIVE Fold(_, _, _)
(* Fold("." and "" skipped, ".." pops): result is [ok, segs] *)
Fold(parts, i, acc) ==
  IF i > Len(parts) THEN [ok |-> TRUE, segs |-> acc]
  ELSE LET p == parts[i] IN
    CASE p = <<>> \/ p = <<46>> -> Fold(parts, i + 1, acc)
      [] p = <<46, 46>> -> IF acc = <<>> THEN [ok |-> FALSE, segs |-> <<>>]
                           ELSE Fold(parts, i + 1, SubSeq(acc, 1, Len(acc) - 1))
      [] OTHER -> Fold(parts, i + 1, Append(acc, p))
Normal(path) == Fold(SplitB(path, 47), 1, <<>>)

IsVar(seg) == seg # <<>> /\ seg[1] = 58
VarName(seg) == Tail(seg)

(* pattern segments against request segments *)
Matches(pat, segs) ==
  /\ Len(pat) = Len(segs)
  /\ \A i \in 1..Len(pat) : IsVar(pat[i]) \/ pat[i] = segs[i]

(* bindings a pattern gives; a name used twice is bound to the last segment *)
VarPositions(pat) == {i \in 1..Len(pat) : IsVar(pat[i])}
Bindings(pat, segs) ==
  {<<VarName(pat[i]), segs[i]>> :
      i \in {j \in VarPositions(pat) :
               \A m \in VarPositions(pat) : m > j => pat[m] # pat[j]}}
=============================================================================
