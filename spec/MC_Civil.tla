------------------------------ MODULE MC_Civil ------------------------------
(* C20: the library's date arithmetic equals the calendar on every day of    *)
(* the range, one day at a time.                                             *)
EXTENDS Civil
CONSTANTS First, Final, Step
VARIABLES d, c
Init == d \in {First + k * Step : k \in 0..((Final - First) \div Step)} /\ c = CivilOf(d)
(* the next day by the rules of the calendar alone *)
NextDay(x) ==
  LET w == (x.w + 1) % 7 IN
  IF x.d < DaysIn(x.y, x.m) THEN [x EXCEPT !.d = @ + 1, !.w = w]
  ELSE IF x.m < 12 THEN [x EXCEPT !.d = 1, !.m = @ + 1, !.w = w]
  ELSE [y |-> x.y + 1, m |-> 1, d |-> 1, w |-> w]
Next == /\ (d + 1 - First) % Step # 0 /\ d < Final
        /\ d' = d + 1 /\ c' = NextDay(c)
Spec == Init /\ [][Next]_<<d, c>>
Agree == CivilOf(d) = c /\ Algorithm(d) = c
Form == LET s == ImfDate(d, (d * 7919) % 86400)
        IN /\ Len(s) = 29 + (IF c.y > 9999 THEN Len(Dec(c.y)) - 4 ELSE 0)
           /\ s[4] = 44 /\ s[5] = SP /\ s[8] = SP /\ s[12] = SP
=============================================================================
