-------------------------------- MODULE Query --------------------------------
(* Query strings: percent decoding, the flat view and the extended view.    *)
EXTENDS Bytes

HexDigits == (48..57) \cup (65..70) \cup (97..102)
HexVal(b) == IF IsDigit(b) THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55
Escape(s, i) == /\ s[i] = 37 /\ i + 2 <= Len(s)
                /\ s[i + 1] \in HexDigits /\ s[i + 2] \in HexDigits
RECURSIVE DecodeFrom(_, _)
DecodeFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF Escape(s, i)
       THEN <<16 * HexVal(s[i + 1]) + HexVal(s[i + 2])>> \o DecodeFrom(s, i + 3)
       ELSE <<s[i]>> \o DecodeFrom(s, i + 1)
Decode(s) == IF \E i \in 1..Len(s) : s[i] = 37 THEN DecodeFrom(s, 1) ELSE s

(* the pairs of a query string: [name, val] as written *)
Pair(tok) == LET e == FindB(tok, 61)
             IN IF e = 0 THEN [name |-> tok, val |-> <<>>, eq |-> FALSE]
                ELSE [name |-> Take(tok, e - 1), val |-> Drop(tok, e), eq |-> TRUE]
Pairs(q) == LET toks == SplitB(q, 38)
            IN Eager([i \in 1..Len(toks) |-> Pair(toks[i])])
Named(q) == SelectSeq(Pairs(q), LAMBDA p : p.name # <<>>)

(* every name maps to the last value given for it *)
Flat(q) ==
  LET ps == Named(q)
      key == Eager([i \in 1..Len(ps) |-> Decode(ps[i].name)])
  IN {<<key[i], Decode(ps[i].val)>> :
        i \in {j \in 1..Len(ps) : \A m \in (j + 1)..Len(ps) : key[m] # key[j]}}

(* Extended view. A name of the form out[in] with the last '[' of the name  *)
(* opening the brackets that its final ']' closes.                          *)
Bracket(n) == n # <<>> /\ n[Len(n)] = 93 /\ FindLastB(n, 91) > 0
Outside(n) == Take(n, FindLastB(n, 91) - 1)
Inside(n) == SubSeq(n, FindLastB(n, 91) + 1, Len(n) - 1)
Kind(p) == IF p.eq /\ Bracket(p.name)
           THEN IF Inside(p.name) = <<>> THEN "arr" ELSE "obj"
           ELSE "str"
Key(p) == IF Kind(p) = "str" THEN Decode(p.name) ELSE Outside(p.name)
(* what key k holds: a string wins, otherwise the kind seen first *)
Extended(q) ==
  LET ns == Named(q)
      ps == Eager([i \in 1..Len(ns) |->
                     [key |-> Key(ns[i]), kind |-> Kind(ns[i]), val |-> Decode(ns[i].val),
                      in |-> IF Kind(ns[i]) = "obj" THEN Inside(ns[i].name) ELSE <<>>]])
      keys == {ps[i].key : i \in 1..Len(ps)}
  IN {LET mine == SelectSeq(ps, LAMBDA p : p.key = k)
          of(kd) == SelectSeq(mine, LAMBDA p : p.kind = kd)
          strs == of("str")
          kind == IF strs # <<>> THEN "str" ELSE mine[1].kind
          arr == of("arr")
          obj == of("obj")
      IN [k |-> k, t |-> kind,
          s |-> IF kind = "str" THEN strs[Len(strs)].val ELSE <<>>,
          a |-> IF kind = "arr" THEN [j \in 1..Len(arr) |-> arr[j].val] ELSE <<>>,
          o |-> IF kind # "obj" THEN {}
                ELSE {<<obj[j].in, obj[j].val>> :
                        j \in {i \in 1..Len(obj) : \A m \in (i + 1)..Len(obj) : obj[m].in # obj[i].in}}] : k \in keys}
=============================================================================
