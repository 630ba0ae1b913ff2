------------------------------ MODULE MdfTimeMC ------------------------------
(* The calendar as a counter (day, month, year with carry) against the closed *)
(* formulas, for every day of the range; zone shifts and texts at every day.  *)
EXTENDS MdfTime, TLC
CONSTANT EndYear
VARIABLES no, y, mo, da, wd
vars == <<no, y, mo, da, wd>>
Init == no = 0 /\ y = 1970 /\ mo = 1 /\ da = 1 /\ wd = 4
NextDay == /\ no' = no + 1 /\ wd' = (wd % 7) + 1
           /\ IF da < DaysIn(y, mo) THEN da' = da + 1 /\ UNCHANGED <<y, mo>>
              ELSE /\ da' = 1 /\ IF mo < 12 THEN mo' = mo + 1 /\ y' = y ELSE mo' = 1 /\ y' = y + 1
Next == y < EndYear /\ NextDay
Spec == Init /\ [][Next]_vars
CalendarAgrees == DayNo(y, mo, da) = no /\ Civil(no) = [y |-> y, mo |-> mo, da |-> da] /\ WeekDay(no) = wd
At(m) == [d |-> no, m |-> m, n |-> 123456]
Times == {0, 1, 3599999, 3600000, 43200000, DayMs - 1}
Offsets == {0, 60, -60, 330, -210, 765, -720, 840}
ShiftBack == \A m \in Times : \A o \in Offsets : LET t == At(m) IN Shift(Shift(t, o), -o) = t
\* summer time changes exactly twice a year, and local times plus the flag identify the instant
Summer == LET t == At(0) u == [d |-> no + 1, m |-> 0, n |-> 123456] IN
          (EuDst(t) # EuDst(u)) = (no \in {LastSunday(y, 3), LastSunday(y, 10)})
Sundays == mo \in {3, 10} => WeekDay(LastSunday(y, mo)) = 7 /\ Civil(LastSunday(y, mo)).mo = mo /\ Civil(LastSunday(y, mo) + 7).mo # mo
Texts == no > 0 => \A m \in {0, 86399999} : LET t == At(m) IN
            /\ Denotes(t, 9) = t /\ Denotes(t, 3) = MsOnly(t)
            /\ Len(IsoBoth(t, TRUE)) = (IF m = 0 THEN 20 ELSE 24)
            /\ IsoText(t, 0, 3, "z", FALSE, 84) = Ymd(t, <<45>>) \o <<84>> \o Hms(t, <<58>>) \o <<46>> \o D(Milli(t), 3) \o <<90>>
===============================================================================
