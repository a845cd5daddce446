----------------------------- MODULE DateTimeMC -----------------------------
(* Walks the calendar day by day; the closed forms of DateTime agree with   *)
(* the walk over a whole 400-year cycle (and the calendar is periodic).     *)
EXTENDS DateTime, TLC
CONSTANTS Before, To
From == -Before
VARIABLES day, ymd, iso, wd, yd
vars == <<day, ymd, iso, wd, yd>>
Init == /\ day = From /\ ymd = Civil(From) /\ iso = Iso(From)
        /\ wd = Weekday(From) /\ yd = YearDay(From)
NextDate(x) == IF x[3] < MonthLen(x[1], x[2]) THEN <<x[1], x[2], x[3] + 1>>
               ELSE IF x[2] < 12 THEN <<x[1], x[2] + 1, 1>>
               ELSE <<x[1] + 1, 1, 1>>
Next == /\ day < To /\ day' = day + 1
        /\ ymd' = NextDate(ymd)
        /\ wd' = (wd + 1) % 7
        /\ yd' = IF ymd'[1] # ymd[1] THEN 0 ELSE yd + 1
        /\ iso' = IF iso[3] < 7 THEN <<iso[1], iso[2], iso[3] + 1>>
                  ELSE \* Monday: week 1 as soon as it holds January 4th
                    IF iso[2] >= 52 /\ \/ ymd'[2] = 12 /\ ymd'[3] >= 29
                                       \/ ymd'[2] = 1
                    THEN <<iso[1] + 1, 1, 1>> ELSE <<iso[1], iso[2] + 1, 1>>
Spec == Init /\ [][Next]_vars
Agrees == /\ ymd = Civil(day) /\ iso = Iso(day) /\ wd = Weekday(day)
          /\ yd = YearDay(day) /\ DayNumber(ymd[1], ymd[2], ymd[3]) = day
          /\ iso[2] \in 1..53 /\ (wd = 0) = (iso[3] = 7)
Anchors == Civil(0) = <<1970, 1, 1>> /\ Weekday(0) = 4
           /\ Civil(-1) = <<1969, 12, 31>>
           /\ Civil(DayNumber(1, 1, 1)) = <<1, 1, 1>>
           /\ Civil(DayNumber(9999, 12, 31)) = <<9999, 12, 31>>
           /\ DayNumber(2000, 1, 1) = 10957
           /\ Iso(DayNumber(2005, 1, 1)) = <<2004, 53, 6>>
Periodic == LET c == Civil(day + 146097) IN
            /\ c = <<ymd[1] + 400, ymd[2], ymd[3]>>
            /\ Weekday(day + 146097) = wd
=============================================================================
