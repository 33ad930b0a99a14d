------------------------------- MODULE Civil -------------------------------
(***************************************************************************)
(* The Gregorian calendar: day numbers, leap years, weekdays, ISO weeks,   *)
(* and date-time values with their normal form.                            *)
(* A date-time is [y, m, d, h, n, s, do, tz]; do = 1 means date only.      *)
(* Day numbers count from 1970-01-01 = 0.  Weekdays: 0 = Sunday.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLens == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
DIM(y, m) == IF m = 2 /\ IsLeap(y) THEN 29 ELSE MonthLens[m]
DIY(y) == IF IsLeap(y) THEN 366 ELSE 365
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
UpTo(y, m) == CumDays[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)

\* days from 0001-01-01 to the first of January of y
Before(y) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
Epoch == Before(1970)
DayNum(y, m, d) == Before(y) - Epoch + UpTo(y, m) + d - 1     \* any d, m in 1..12
YearOf(n) == LET g == (n + Epoch) \div 366 + 1                 \* a lower bound of the year, off by a few
                 RECURSIVE Up(_)
                 Up(y) == IF Before(y + 1) - Epoch <= n THEN Up(y + 1) ELSE y
                 g2 == LET t == ((n + Epoch) * 4) \div 1461 + 1 IN IF Before(t) - Epoch <= n THEN t ELSE t - 1
                 RECURSIVE Dn(_)
                 Dn(y) == IF Before(y) - Epoch > n THEN Dn(y - 1) ELSE y
             IN  Up(Dn(g2))
Civ(n) == LET y == YearOf(n)
              r == n - (Before(y) - Epoch)
              m == CHOOSE k \in 1..12 : UpTo(y, k) <= r /\ (k = 12 \/ UpTo(y, k + 1) > r)
          IN  [y |-> y, m |-> m, d |-> r - UpTo(y, m) + 1]
Weekday(n) == (n + 4) % 7
IsoWd(n) == IF Weekday(n) = 0 THEN 7 ELSE Weekday(n)
YearDay(y, m, d) == UpTo(y, m) + d
\* ISO 8601: the week belongs to the year of its Thursday
IsoYear(n) == YearOf(n - IsoWd(n) + 4)
IsoWeek(n) == LET th == n - IsoWd(n) + 4 IN ((th - (Before(YearOf(th)) - Epoch)) \div 7) + 1
IsoWeek1Monday(y) == LET j4 == DayNum(y, 1, 4) IN j4 - (IsoWd(j4) - 1)
IsoWeeksIn(y) == IF IsoWd(DayNum(y, 1, 1)) = 4 \/ (IsLeap(y) /\ IsoWd(DayNum(y, 1, 1)) = 3) THEN 53 ELSE 52

\* n-th (from start if k > 0, from end if k < 0) weekday w in the day interval [a, b]; may lie outside when k overshoots
NthIn(a, b, k, w) == IF k > 0 THEN a + ((w - Weekday(a)) % 7) + 7 * (k - 1)
                     ELSE b - ((Weekday(b) - w) % 7) + 7 * (k + 1)

ValidDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DIM(y, m)

(* Normal form of any field values *)
Norm(r) ==
  LET s1 == r.s % 60
      n0 == r.n + (r.s \div 60)
      n1 == n0 % 60
      h0 == r.h + (n0 \div 60)
      h1 == h0 % 24
      d0 == r.d + (h0 \div 24)
      m1 == ((r.m - 1) % 12) + 1
      y1 == r.y + ((r.m - 1) \div 12)
      c == Civ(DayNum(y1, m1, 1) + d0 - 1)
  IN  [r EXCEPT !.y = c.y, !.m = c.m, !.d = c.d,
                !.h = IF r.do = 1 THEN 0 ELSE h1, !.n = IF r.do = 1 THEN 0 ELSE n1, !.s = IF r.do = 1 THEN 0 ELSE s1]
DN(r) == DayNum(r.y, r.m, r.d)
SecOfDay(r) == r.h * 3600 + r.n * 60 + r.s
WithDay(r, n) == LET c == Civ(n) IN [r EXCEPT !.y = c.y, !.m = c.m, !.d = c.d]
\* shift by a signed number of seconds / days
AddSecs(r, k) == Norm([r EXCEPT !.s = r.s + k])
AddDays(r, k) == WithDay(r, DN(r) + k)
\* (days, seconds) pairs: instants without offset
PNorm(p) == <<p[1] + (p[2] \div 86400), p[2] % 86400>>
PLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
PCmp(a, b) == IF a = b THEN 0 ELSE IF PLess(a, b) THEN -1 ELSE 1
PSub(a, b) == PNorm(<<a[1] - b[1], a[2] - b[2]>>)
PAdd(a, b) == PNorm(<<a[1] + b[1], a[2] + b[2]>>)
Instant(r, off) == PNorm(<<DN(r), SecOfDay(r) - off>>)
FieldCmp(a, b) == PCmp(<<DN(a), SecOfDay(a)>>, <<DN(b), SecOfDay(b)>>)
SameFields(a, b) == /\ a.y = b.y /\ a.m = b.m /\ a.d = b.d /\ a.h = b.h /\ a.n = b.n /\ a.s = b.s /\ a.do = b.do /\ a.tz = b.tz
=============================================================================
