------------------------------ MODULE MC_Words ------------------------------
(* Laws of the text-level meanings (paths, queries, headers, cookies),       *)
(* checked on every word over a small alphabet up to a length. Each law is   *)
(* stated independently of how Path, Query and Head define the meaning: a    *)
(* round trip, an invariance, or agreement with a step-by-step machine.      *)
EXTENDS Octane
CONSTANTS Letters, MaxLen
VARIABLE w
Init == w = <<>>
Next == Len(w) < MaxLen /\ \E b \in Letters : w' = Append(w, b)
Spec == Init /\ [][Next]_w

(* --- paths (C04): 47 "/"  46 "."  58 ":" --------------------------------- *)
DotDot == <<46, 46>>
Rejoin(segs) == <<47>> \o Join(segs, <<47>>)
(* how deep below the root each prefix of the parts is; a name counts one    *)
(* down, ".." one up                                                         *)
Weight(p) == IF p = <<>> \/ p = <<46>> THEN 0 ELSE IF p = DotDot THEN -1 ELSE 1
RECURSIVE Depth(_, _)
Depth(parts, n) == IF n = 0 THEN 0 ELSE Depth(parts, n - 1) + Weight(parts[n])
PathLaws ==
  LET n == Normal(w)
      parts == SplitB(w, 47)
  IN /\ n.ok = (\A i \in 1..Len(parts) : Depth(parts, i) >= 0)        \* rejected iff it climbs above the root
     /\ n.ok => /\ Len(n.segs) = Depth(parts, Len(parts))
                /\ \A i \in 1..Len(n.segs) : n.segs[i] \notin {<<>>, <<46>>, DotDot} /\ 47 \notin ToSet(n.segs[i])
                /\ Normal(Rejoin(n.segs)) = n                            \* already normal
                /\ Normal(w \o B("/z/..")) = n                           \* down and up again
     /\ Normal(<<47>> \o w) = n /\ Normal(w \o <<47>>) = n /\ Normal(w \o B("/./")) = n /\ Normal(B("./") \o w) = n
     /\ n.ok => Matches(n.segs, n.segs)
     /\ n.ok => \A i \in 1..Len(n.segs) : Matches([n.segs EXCEPT ![i] = B(":v")], n.segs)

(* --- queries (C11, C12): 38 "&" 61 "=" 37 "%" 91 "[" 93 "]" ---------------- *)
(* the library's way: go through the tokens, later ones overwrite *)
RECURSIVE Load(_, _, _)
Load(toks, i, map) ==
  IF i > Len(toks) THEN map
  ELSE LET p == Pair(toks[i])
           k == Decode(p.name)
           v == Decode(p.val)
       IN IF p.name = <<>> THEN Load(toks, i + 1, map)
          ELSE Load(toks, i + 1, {e \in map : e[1] # k} \cup {<<k, v>>})
(* the decoder as a machine over positions; an escape is recognised only     *)
(* when both digits follow                                                   *)
RECURSIVE Machine(_, _, _)
Machine(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] # 37 \/ i + 2 > Len(s) THEN Machine(s, i + 1, Append(acc, s[i]))
  ELSE IF s[i + 1] \in HexDigits /\ s[i + 2] \in HexDigits
       THEN Machine(s, i + 3, Append(acc, 16 * HexVal(s[i + 1]) + HexVal(s[i + 2])))
       ELSE Machine(s, i + 1, Append(acc, 37))
HexOf(n) == IF n < 10 THEN 48 + n ELSE 55 + n
EncodeB(b) == <<37, HexOf(b \div 16), HexOf(b % 16)>>
Encode(s) == FlattenSeq([i \in 1..Len(s) |-> EncodeB(s[i])])
QueryLaws ==
  LET f == Flat(w) IN
  /\ f = Load(SplitB(w, 38), 1, {})
  /\ \A x, y \in f : x[1] = y[1] => x = y
  /\ Decode(w) = Machine(w, 1, <<>>)
  /\ Decode(Encode(w)) = w
  /\ (w # <<>> => Flat(Encode(w) \o <<61>> \o Encode(w)) = {<<w, w>>})   \* any text survives as name and value
  /\ Flat(w \o <<38>>) = f /\ Flat(<<38>> \o w) = f
  /\ Flat(w \o B("&zz=1")) = {e \in f : e[1] # B("zz")} \cup {<<B("zz"), B("1")>>}
XQueryLaws ==
  LET x == Extended(w)
      f == Flat(w)
  IN /\ \A a, b \in x : a.k = b.k => a = b
     /\ (91 \notin ToSet(w) => {<<e.k, e.s>> : e \in x} = f /\ \A e \in x : e.t = "str")
     /\ \A e \in x : e.t = "arr" => Len(e.a) >= 1
     /\ \A e \in x : e.t = "obj" => e.o # {} /\ \A p, q \in e.o : p[1] = q[1] => p = q
     /\ Extended(w \o B("&k[]=1&k[]=2")) \ x =
          (IF \E e \in x : e.k = B("k") THEN Extended(w \o B("&k[]=1&k[]=2")) \ x
           ELSE {[k |-> B("k"), t |-> "arr", s |-> <<>>, a |-> <<B("1"), B("2")>>, o |-> {}]})
     /\ (\E e \in x : e.k = B("a") /\ e.t = "str") => \E e \in Extended(w \o B("&a[]=9")) : e.k = B("a") /\ e.t = "str"
     /\ \E e \in Extended(w \o B("&a=9")) : e.k = B("a") /\ e.t = "str" /\ e.s = B("9")

(* --- header lines and cookies (C10, C13) ----------------------------------- *)
HeaderLaws ==
  LET h == ParseHeader(B("Ab:") \o w)
      t == Trim(w, OWS)
  IN /\ h.ok = NoneIn(t, CtlNoTab)
     /\ h.ok => /\ h.val = t /\ (t # <<>> => t[1] \notin OWS /\ t[Len(t)] \notin OWS)
                /\ ParseHeader(B("Ab: ") \o <<9>> \o w).val = t /\ ParseHeader(B("Ab:") \o w \o <<32, 9>>).val = t
                /\ LET two == <<h, [h EXCEPT !.name = B("aB"), !.val = B("q")]>>
                   IN HdrMap(two) = {<<B("ab"), t \o B(", q")>>}
     /\ LET n == ParseHeader(w \o B(":v"))
        IN n.ok => 58 \notin ToSet(n.name) /\ n.name # <<>> /\ HdrMap(<<n>>) = {<<Lower(n.name), n.val>>}
CookieOf(s) == Cookies(<<[ok |-> TRUE, name |-> B("Cookie"), low |-> COOKIE, val |-> s]>>)
CookieLaws ==
  LET c == CookieOf(w) IN
  /\ \A i \in 1..Len(c) : c[i][1] # <<>> /\ 61 \notin ToSet(c[i][1]) /\ 59 \notin ToSet(c[i][2]) /\ 59 \notin ToSet(c[i][1])
  /\ CookieOf(w \o B("; k=v")) = c \o <<<<B("k"), B("v")>>>>            \* what others send changes nothing
  /\ CookieOf(B("k=v; ") \o w) = <<<<B("k"), B("v")>>>> \o c
  /\ CookieOf(w \o B("; nothing")) = c
=============================================================================
