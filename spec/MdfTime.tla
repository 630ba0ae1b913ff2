------------------------------- MODULE MdfTime -------------------------------
(* Instants and their representations.                                        *)
(* An instant is [d |-> days since 1970-01-01, m |-> milliseconds of the day, *)
(* n |-> nanoseconds of the millisecond]: TLC's integers have 32 bits.        *)
EXTENDS Integers, Sequences
DayMs == 86400000
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, mo) == CASE mo \in {4, 6, 9, 11} -> 30 [] mo = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
Cum == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
BeforeMonth(y, mo) == Cum[mo] + (IF mo > 2 /\ Leap(y) THEN 1 ELSE 0)
BeforeYear(y) == LET z == y - 1 IN 365 * (y - 1970) + ((z \div 4) - (z \div 100) + (z \div 400)) - 477
DayNo(y, mo, da) == BeforeYear(y) + BeforeMonth(y, mo) + da - 1
YearOf(d) == CHOOSE y \in (1969 + d \div 366)..(1971 + d \div 365) : BeforeYear(y) <= d /\ d < BeforeYear(y + 1)
Civil(d) == LET y == YearOf(d)
                r == d - BeforeYear(y)
                mo == CHOOSE k \in 1..12 : BeforeMonth(y, k) <= r /\ r < BeforeMonth(y, k) + DaysIn(y, k)
            IN [y |-> y, mo |-> mo, da |-> r - BeforeMonth(y, mo) + 1]
WeekDay(d) == ((d + 3) % 7) + 1            \* 1 = Monday .. 7 = Sunday; 1970-01-01 was a Thursday
\* move an instant by whole minutes
Shift(t, min) == LET m == t.m + (min % 1440) * 60000        \* -1 % 1440 = 1439 in TLA+
                     d == t.d + (min \div 1440)
                 IN IF m >= DayMs THEN [d |-> d + 1, m |-> m - DayMs, n |-> t.n] ELSE [d |-> d, m |-> m, n |-> t.n]
\* Central European rule: summer time from the last Sunday of March to the last Sunday of October, 01:00 UTC
LastSunday(y, mo) == LET e == DayNo(y, mo, DaysIn(y, mo)) IN e - (WeekDay(e) % 7)
EuDst(t) == LET y == YearOf(t.d)
                a == LastSunday(y, 3)
                b == LastSunday(y, 10)
            IN (t.d > a \/ (t.d = a /\ t.m >= 3600000)) /\ (t.d < b \/ (t.d = b /\ t.m < 3600000))
\* zone: [k |-> "fix", min |-> offset] or [k |-> "eu", min |-> 60]
Dst(z, t) == z.k = "eu" /\ EuDst(t)
Local(z, t) == Shift(t, z.min + (IF Dst(z, t) THEN 60 ELSE 0))

----------------------------------------------------------------- (* texts *)
D(x, w) == [i \in 1..w |-> 48 + ((x \div (10 ^ (w - i))) % 10)]
Hour(t) == t.m \div 3600000
Minute(t) == (t.m \div 60000) % 60
Second(t) == (t.m \div 1000) % 60
Milli(t) == t.m % 1000
Ymd(t, sep) == LET c == Civil(t.d) IN D(c.y, 4) \o sep \o D(c.mo, 2) \o sep \o D(c.da, 2)
Hms(t, sep) == D(Hour(t), 2) \o sep \o D(Minute(t), 2) \o sep \o D(Second(t), 2)
Dmy(t) == LET c == Civil(t.d) IN D(c.da, 2) \o <<58>> \o D(c.mo, 2) \o <<58>> \o D(c.y, 4)
MsPart(t) == IF Milli(t) = 0 THEN <<>> ELSE <<46>> \o D(Milli(t), 3)
IsoDate(t) == Ymd(t, <<45>>) \o <<90>>
IsoTime(t, ms) == Hms(t, <<58>>) \o (IF ms THEN MsPart(t) ELSE <<>>) \o <<90>>
IsoBoth(t, ms) == Ymd(t, <<45>>) \o <<84>> \o IsoTime(t, ms)
LocalIso(t) == Ymd(t, <<45>>) \o <<32>> \o Hms(t, <<58>>) \o MsPart(t)
\* an ISO text of instant t seen in an offset of min minutes: fr fraction digits (0 = none), off "z", "colon", "plain", "hour" or "none"
Frac(t, fr) == SubSeq(D(Milli(t), 3) \o D(t.n, 6), 1, fr)
OffText(min, off) == LET a == IF min < 0 THEN -min ELSE min
                         s == IF min < 0 THEN <<45>> ELSE <<43>>
                     IN CASE off = "z" -> <<90>>
                          [] off = "none" -> <<>>
                          [] off = "hour" -> s \o D(a \div 60, 2)
                          [] off = "plain" -> s \o D(a \div 60, 2) \o D(a % 60, 2)
                          [] OTHER -> s \o D(a \div 60, 2) \o <<58>> \o D(a % 60, 2)
IsoText(t, min, fr, off, basic, sep) ==
  LET l == Shift(t, min)
  IN Ymd(l, IF basic THEN <<>> ELSE <<45>>) \o <<sep>> \o Hms(l, IF basic THEN <<>> ELSE <<58>>)
     \o (IF fr > 0 THEN <<46>> \o Frac(l, fr) ELSE <<>>) \o OffText(min, off)
\* what that text denotes: the digits not written are zero
Denotes(t, fr) == LET f == [i \in 1..9 |-> IF i <= fr THEN Frac(t, fr)[i] - 48 ELSE 0]
                  IN [d |-> t.d, m |-> (t.m - Milli(t)) + (f[1] * 100 + f[2] * 10 + f[3]),
                      n |-> f[4] * 100000 + f[5] * 10000 + f[6] * 1000 + f[7] * 100 + f[8] * 10 + f[9]]

--------------------------------------------------------------- (* CANopen *)
Le(x, w) == [i \in 1..w |-> (x \div (256 ^ (i - 1))) % 256]
MsOnly(t) == [t EXCEPT !.n = 0]
CanDate(z, t) == LET l == Local(z, t)  c == Civil(l.d)
                 IN Le(l.m % 60000, 2) \o <<Minute(l), Hour(l) + (IF Dst(z, t) THEN 128 ELSE 0),
                                            c.da + 32 * WeekDay(l.d), c.mo, c.y % 100>>
Day1984 == DayNo(1984, 1, 1)
\* days and milliseconds in winter time since 1984-01-01
CanTime(z, t) == LET l == Shift(t, z.min) IN Le(l.m, 4) \o Le(l.d - Day1984, 2)
===============================================================================
