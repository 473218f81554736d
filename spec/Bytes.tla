------------------------------- MODULE Bytes -------------------------------
(* Byte strings as sequences over 0..255, and the text operations the       *)
(* protocol definitions are written with.                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(Printable, i, i) : i \in 1..95} |->
              31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = ch)]
(* B("abc") = <<97, 98, 99>> *)
B(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]] \o <<>>

CR == 13
LF == 10
HT == 9
SP == 32
CRLF == <<13, 10>>

IsUpper(b) == b >= 65 /\ b <= 90
IsLower(b) == b >= 97 /\ b <= 122
IsDigit(b) == b >= 48 /\ b <= 57
LowerB(b) == IF IsUpper(b) THEN b + 32 ELSE b
UpperB(b) == IF IsLower(b) THEN b - 32 ELSE b
Lower(s) == [i \in 1..Len(s) |-> LowerB(s[i])] \o <<>>
Upper(s) == [i \in 1..Len(s) |-> UpperB(s[i])] \o <<>>

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

(* Searching. The definitions below look for the first (last) position with *)
(* a property by naming it outright, so that TLC, which tries candidates in *)
(* ascending order, finds it in one pass.                                   *)
IsAt(s, p, i) == \A j \in 1..Len(p) : s[i + j - 1] = p[j]
(* first position of p in s, 0 if none *)
Find(s, p) ==
  IF \E i \in 1..(Len(s) - Len(p) + 1) : IsAt(s, p, i)
  THEN CHOOSE i \in 1..(Len(s) - Len(p) + 1) : IsAt(s, p, i) /\ \A j \in 1..(i - 1) : ~IsAt(s, p, j)
  ELSE 0
FindB(s, b) ==
  IF \E i \in 1..Len(s) : s[i] = b
  THEN CHOOSE i \in 1..Len(s) : s[i] = b /\ \A j \in 1..(i - 1) : s[j] # b
  ELSE 0
(* last position of b in s, 0 if none *)
FindLastB(s, b) ==
  IF \E i \in 1..Len(s) : s[i] = b
  THEN Len(s) - (CHOOSE k \in 0..(Len(s) - 1) : s[Len(s) - k] = b /\ \A j \in 0..(k - 1) : s[Len(s) - j] # b)
  ELSE 0

(* the same sequence; TLC computes its elements once instead of on each use *)
Eager(s) == s \o <<>>
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Upto(n) == IF n < 1 THEN <<>> ELSE [i \in 1..n |-> i]

(* split at every occurrence of the byte b; always at least one piece *)
SplitB(s, b) ==
  LET cuts == <<0>> \o SelectSeq(Upto(Len(s)), LAMBDA i : s[i] = b) \o <<Len(s) + 1>>
  IN Eager([i \in 1..(Len(cuts) - 1) |-> SubSeq(s, cuts[i] + 1, cuts[i + 1] - 1)])
(* split at every occurrence of the two-byte separator p (p[1] # p[2]) *)
Split2(s, p) ==
  LET cuts == <<-1>> \o SelectSeq(Upto(Len(s) - 1), LAMBDA i : s[i] = p[1] /\ s[i + 1] = p[2]) \o <<Len(s) + 1>>
  IN Eager([i \in 1..(Len(cuts) - 1) |-> SubSeq(s, cuts[i] + 2, cuts[i + 1] - 1)])

(* remove bytes of the set W at both ends *)
Trim(s, W) ==
  LET n == Len(s) IN
  IF \A i \in 1..n : s[i] \in W THEN <<>>
  ELSE SubSeq(s, CHOOSE i \in 1..n : s[i] \notin W /\ \A j \in 1..(i - 1) : s[j] \in W,
              n - (CHOOSE k \in 0..(n - 1) : s[n - k] \notin W /\ \A j \in 0..(k - 1) : s[n - j] \in W))
OWS == {SP, HT}

AllIn(s, W) == \A i \in 1..Len(s) : s[i] \in W
NoneIn(s, W) == \A i \in 1..Len(s) : s[i] \notin W

RECURSIVE Join(_, _)
Join(ss, sep) == IF Len(ss) = 0 THEN <<>>
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)

(* decimal rendering of a natural number, and w digits with leading zeros *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Pad(_, _)
Pad(n, w) == IF w = 0 THEN <<>> ELSE Pad(n \div 10, w - 1) \o <<48 + (n % 10)>>

(* the number a digit string denotes; strings of more than nine significant *)
(* digits exceed every length used here and are all mapped to Huge          *)
Huge == 2000000000
RECURSIVE DecVal(_)
DecVal(s) == IF s = <<>> THEN 0 ELSE DecVal(Take(s, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
Significant(s) == IF \A i \in 1..Len(s) : s[i] = 48 THEN <<>>
                  ELSE SubSeq(s, CHOOSE i \in 1..Len(s) : s[i] # 48 /\ \A j \in 1..(i - 1) : s[j] = 48, Len(s))
DigitsVal(s) == LET d == Significant(s) IN IF Len(d) > 9 THEN Huge ELSE DecVal(d)

(* well-formed UTF-8 (Unicode table 3-7) *)
Cont(s, i) == i <= Len(s) /\ s[i] >= 128 /\ s[i] <= 191
Between(s, i, lo, hi) == i <= Len(s) /\ s[i] >= lo /\ s[i] <= hi
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET b == s[i] IN
    CASE b < 128 -> Utf8From(s, i + 1)
      [] b >= 194 /\ b <= 223 -> Cont(s, i + 1) /\ Utf8From(s, i + 2)
      [] b = 224 -> Between(s, i + 1, 160, 191) /\ Cont(s, i + 2) /\ Utf8From(s, i + 3)
      [] (b >= 225 /\ b <= 236) \/ b = 238 \/ b = 239 ->
            Cont(s, i + 1) /\ Cont(s, i + 2) /\ Utf8From(s, i + 3)
      [] b = 237 -> Between(s, i + 1, 128, 159) /\ Cont(s, i + 2) /\ Utf8From(s, i + 3)
      [] b = 240 -> Between(s, i + 1, 144, 191) /\ Cont(s, i + 2) /\ Cont(s, i + 3) /\ Utf8From(s, i + 4)
      [] b >= 241 /\ b <= 243 -> Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3) /\ Utf8From(s, i + 4)
      [] b = 244 -> Between(s, i + 1, 128, 143) /\ Cont(s, i + 2) /\ Cont(s, i + 3) /\ Utf8From(s, i + 4)
      [] OTHER -> FALSE
ValidUtf8(s) == IF \A i \in 1..Len(s) : s[i] < 128 THEN TRUE
                ELSE Utf8From(s, CHOOSE i \in 1..Len(s) : s[i] >= 128 /\ \A j \in 1..(i - 1) : s[j] < 128)
=============================================================================
