------------------------------ MODULE DateTime ------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar, its ISO week calendar, and instants    *)
(* of numpy's datetime64.  An instant is counted from 1970-01-01T00:00:00  *)
(* as                                                                      *)
(*    [day, sec in 0..86399, hi, lo]   hi*10^9+lo attoseconds,             *)
(* hi, lo in 0..10^9-1 (the rationale: TLC's integers are 32-bit wide).    *)
(* Closed forms are checked against the day by day successor in DateTimeMC.*)
(***************************************************************************)
EXTENDS Integers, Sequences

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                    [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
                    [] OTHER -> 31
\* days from 0001-01-01 to January 1st of year y
DaysBeforeYear(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100
                     + (y - 1) \div 400
Epoch == DaysBeforeYear(1970)
Cumulated == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBeforeMonth(y, m) == Cumulated[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
DayNumber(y, m, d) == DaysBeforeYear(y) + DaysBeforeMonth(y, m) + d - 1 - Epoch

YearOf(day) ==
  LET a == day + Epoch
      e == (a * 10) \div 3653 + 1
  IN CHOOSE y \in e - 3 .. e + 3 :
       DaysBeforeYear(y) <= a /\ a < DaysBeforeYear(y + 1)
YearDay(day) == day + Epoch - DaysBeforeYear(YearOf(day))    \* 0 = January 1st
MonthOf(day) ==
  LET y == YearOf(day)  k == YearDay(day)
  IN CHOOSE m \in 1..12 : /\ DaysBeforeMonth(y, m) <= k
                          /\ m < 12 => k < DaysBeforeMonth(y, m + 1)
Civil(day) ==
  LET y == YearOf(day)  m == MonthOf(day)
  IN <<y, m, YearDay(day) - DaysBeforeMonth(y, m) + 1>>

\* Sunday is 0; 1970-01-01 was a Thursday
Weekday(day) == (day + 4) % 7
IsoDay(day) == ((day + 3) % 7) + 1                              \* Monday is 1
\* the ISO week belongs to the year holding its Thursday
Thursday(day) == day + 4 - IsoDay(day)
Iso(day) == <<YearOf(Thursday(day)), YearDay(Thursday(day)) \div 7 + 1,
              IsoDay(day)>>

Clock(sec) == <<sec \div 3600, (sec \div 60) % 60, sec % 60>>

-----------------------------------------------------------------------------
Units == <<"Y", "M", "W", "D", "h", "m", "s", "ms", "us", "ns", "ps", "fs",
           "as">>
Rank(u) == CHOOSE i \in 1..13 : Units[i] = u
Sub(u) == Rank(u) >= 7                        \* seconds and below
\* significant decimals of the second
Digits(u) == 3 * (Rank(u) - 7)
P10 == [k \in 0..9 |-> <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000,
                         100000000, 1000000000>>[k + 1]]
Cut(n, k) == n - (n % P10[9 - k])               \* keep k of 9 decimals
FloorTo(i, u) ==
  CASE Sub(u) ->
         [i EXCEPT !.hi = IF Digits(u) >= 9 THEN @ ELSE Cut(@, Digits(u)),
                   !.lo = IF Digits(u) <= 9 THEN 0 ELSE Cut(@, Digits(u) - 9)]
    [] u = "m" -> [i EXCEPT !.sec = @ - (@ % 60), !.hi = 0, !.lo = 0]
    [] u = "h" -> [i EXCEPT !.sec = @ - (@ % 3600), !.hi = 0, !.lo = 0]
    [] OTHER ->
         LET c == Civil(i.day)
             d == CASE u = "D" -> i.day
                    [] u = "W" -> i.day - (i.day % 7)
                    [] u = "M" -> DayNumber(c[1], c[2], 1)
                    [] u = "Y" -> DayNumber(c[1], 1, 1)
         IN [day |-> d, sec |-> 0, hi |-> 0, lo |-> 0]

-----------------------------------------------------------------------------
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Pad(_, _)
Pad(n, w) == IF w = 0 THEN "" ELSE Pad(n \div 10, w - 1) \o Digit[(n % 10) + 1]
Text(i, u) ==
  LET c == Civil(i.day)  t == Clock(i.sec)  k == Digits(u)
      y == Pad(c[1], 4)
      ym == y \o "-" \o Pad(c[2], 2)
      ymd == ym \o "-" \o Pad(c[3], 2)
      h == ymd \o "T" \o Pad(t[1], 2)
      hm == h \o ":" \o Pad(t[2], 2)
      hms == hm \o ":" \o Pad(t[3], 2)
  IN CASE u = "Y" -> y
       [] u = "M" -> ym
       [] u \in {"W", "D"} -> ymd
       [] u = "h" -> h
       [] u = "m" -> hm
       [] u = "s" -> hms
       [] k \in 3..9 -> hms \o "." \o Pad(i.hi \div P10[9 - k], k)
       [] OTHER -> hms \o "." \o Pad(i.hi, 9)
                   \o Pad(i.lo \div P10[18 - k], k - 9)
=============================================================================
