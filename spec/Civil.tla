-------------------------------- MODULE Civil --------------------------------
(* The Date header. Time is a pair (days since 1970-01-01, second of day).  *)
EXTENDS Bytes

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> IF Leap(y) THEN 29 ELSE 28
YearDays(y) == IF Leap(y) THEN 366 ELSE 365
(* days before 1 January of year y, counted from year 1 *)
BeforeYear(y) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400
Epoch == BeforeYear(1970)
(* the year containing day d: among the two candidates the estimate allows *)
YearOf(d) == LET n == d + Epoch
                 est == n \div 366 + 1
             IN CHOOSE y \in est..(est + n \div 150000 + 2) :
                   BeforeYear(y) <= n /\ n < BeforeYear(y + 1)
RECURSIVE MonthFrom(_, _, _)
MonthFrom(y, m, r) == IF r < DaysIn(y, m) THEN [m |-> m, d |-> r + 1]
                      ELSE MonthFrom(y, m + 1, r - DaysIn(y, m))
CivilOf(d) == LET y == YearOf(d)
                  md == MonthFrom(y, 1, d + Epoch - BeforeYear(y))
              IN [y |-> y, m |-> md.m, d |-> md.d, w |-> (d + 4) % 7]

DayNames == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
MonthNames == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
ImfDate(day, sec) ==
  LET c == CivilOf(day)
  IN B(DayNames[c.w + 1]) \o B(", ") \o Pad(c.d, 2) \o <<SP>> \o B(MonthNames[c.m]) \o <<SP>>
     \o Pad(c.y, 4) \o <<SP>> \o Pad(sec \div 3600, 2) \o <<58>> \o Pad((sec \div 60) % 60, 2)
     \o <<58>> \o Pad(sec % 60, 2) \o B(" GMT")

(* --- the library's algorithm, step by step (src/time.rs) ----------------*)
(* TLC's integers are 32 bits wide, so it works on days and seconds.       *)
LeapochDays == 11017   \* 2000-03-01
D400 == 365 * 400 + 97
D100 == 365 * 100 + 24
D4 == 365 * 4 + 1
MonthTab == <<31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 29>>
(* division truncating towards zero, as in Rust *)
TDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
TMod(a, b) == a - b * TDiv(a, b)
RECURSIVE Months(_, _)
Months(m, r) == IF MonthTab[m + 1] <= r THEN Months(m + 1, r - MonthTab[m + 1]) ELSE [m |-> m, r |-> r]
Algorithm(d) ==
  LET days == d - LeapochDays
      w0 == TMod(days + 3, 7)
      w == IF w0 < 0 THEN w0 + 7 ELSE w0
      q0 == TDiv(days, D400)
      r0 == TMod(days, D400)
      qc == IF r0 < 0 THEN q0 - 1 ELSE q0
      r1 == IF r0 < 0 THEN r0 + D400 ELSE r0
      c0 == r1 \div D100
      c == IF c0 = 4 THEN 3 ELSE c0
      r2 == r1 - c * D100
      f0 == r2 \div D4
      f == IF f0 = 25 THEN 24 ELSE f0
      r3 == r2 - f * D4
      y0 == r3 \div 365
      y == IF y0 = 4 THEN 3 ELSE y0
      r4 == r3 - y * 365
      years == y + 4 * f + 100 * c + 400 * qc
      mm == Months(0, r4)
      mon == mm.m + 2
  IN [y |-> IF mon >= 12 THEN 1900 + years + 101 ELSE 1900 + years + 100,
      m |-> (IF mon >= 12 THEN mon - 12 ELSE mon) + 1, d |-> mm.r + 1, w |-> w]
=============================================================================
