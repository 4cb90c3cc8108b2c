-------------------------------- MODULE Dates --------------------------------
(* The calendar: seconds since 1970 as a UTC date and time.                  *)
EXTENDS Integers, Sequences, BigNat, TLC
\* days since 1970-01-01 -> <<year, month, day>>, by counting years and months
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
YearDays(y) == IF IsLeap(y) THEN 366 ELSE 365
MonthDays(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE InYear(_, _)
InYear(days, y) == IF days < YearDays(y) THEN <<y, days>> ELSE InYear(days - YearDays(y), y + 1)
RECURSIVE InMonth(_, _, _)
InMonth(days, y, m) == IF days < MonthDays(y, m) THEN <<y, m, days + 1>> ELSE InMonth(days - MonthDays(y, m), y, m + 1)
Date(days) == LET q == InYear(days, 1970) IN InMonth(q[2], q[1], 1)
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
UtcText(seconds) ==
  LET qr == BDivMod(seconds, BFromInt(86400))
      d == Date(BToInt(qr[1]))
      s == BToInt(qr[2])
  IN ToString(d[1]) \o "-" \o Two(d[2]) \o "-" \o Two(d[3]) \o " " \o Two(s \div 3600) \o ":" \o Two((s \div 60) % 60) \o ":" \o Two(s % 60)
Three(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
RECURSIVE Grouped(_)
Grouped(n) == IF n < 1000 THEN ToString(n) ELSE Grouped(n \div 1000) \o "," \o Three(n % 1000)
=============================================================================
