------------------------------- MODULE Recur -------------------------------
(***************************************************************************)
(* RFC 5545 recurrence rules.  A rule is a record                          *)
(*  [freq, interval, count (0 = none), hasuntil, until, wkst,              *)
(*   bysec, bymin, byhour, byday (sequence of <<n, weekday>>, n = 0: any), *)
(*   bymd, byyd, bywk, bymon, bysp]                                        *)
(* with sequences for the BY parts (empty: absent).                        *)
(* Instants are integers relative to the day of the start (d0):            *)
(*   v = (day - d0) * 86400 + second of day.                               *)
(***************************************************************************)
EXTENDS Civil, SequencesExt

Has(s) == Len(s) > 0
In(x, s) == \E i \in 1..Len(s) : s[i] = x
Elems(s) == {s[i] : i \in 1..Len(s)}
Year1(y) == DayNum(y, 1, 1)
YearN(y) == DayNum(y, 12, 31)
MonthDays(y, m) == DayNum(y, m, 1)..DayNum(y, m, DIM(y, m))

\* weekday parts that apply whatever the number (used where numbers do not apply)
AnyWd(r, n) == \E i \in 1..Len(r.byday) : r.byday[i][2] = Weekday(n)
\* BYDAY with ordinal within the month of day n
WdInMonth(r, n) == LET c == Civ(n)
                       a == DayNum(c.y, c.m, 1)
                       b == DayNum(c.y, c.m, DIM(c.y, c.m))
                   IN \E i \in 1..Len(r.byday) : /\ r.byday[i][2] = Weekday(n)
                                                 /\ r.byday[i][1] # 0 => NthIn(a, b, r.byday[i][1], r.byday[i][2]) = n
WdInYear(r, n) == LET y == YearOf(n)
                  IN \E i \in 1..Len(r.byday) : /\ r.byday[i][2] = Weekday(n)
                                                /\ r.byday[i][1] # 0 => NthIn(Year1(y), YearN(y), r.byday[i][1], r.byday[i][2]) = n
MonthDayOk(r, n) == LET c == Civ(n) IN \E i \in 1..Len(r.bymd) :
                       c.d = (IF r.bymd[i] > 0 THEN r.bymd[i] ELSE DIM(c.y, c.m) + r.bymd[i] + 1)
YearDayOk(r, n) == LET y == YearOf(n) IN \E i \in 1..Len(r.byyd) :
                       n = (IF r.byyd[i] > 0 THEN Year1(y) + r.byyd[i] - 1 ELSE YearN(y) + r.byyd[i] + 1)
MonthOk(r, n) == In(Civ(n).m, r.bymon)

(* --- the days of one period ------------------------------------------- *)
NthSet(a, b, p) == IF p[1] = 0 THEN {n \in a..b : Weekday(n) = p[2]}
                   ELSE LET x == NthIn(a, b, p[1], p[2]) IN IF x >= a /\ x <= b THEN {x} ELSE {}
MdSet(y, m, s) == {DayNum(y, m, 1) + d - 1 : d \in
                     {IF s[i] > 0 THEN s[i] ELSE DIM(y, m) + s[i] + 1 : i \in 1..Len(s)} \cap 1..DIM(y, m)}
YdSet(y, s) == {Year1(y) + d - 1 : d \in {IF s[i] > 0 THEN s[i] ELSE DIY(y) + s[i] + 1 : i \in 1..Len(s)} \cap 1..DIY(y)}
YearDays(r, c0, y) ==
  IF Has(r.bywk) THEN {n \in UNION {LET a == IsoWeek1Monday(y) + 7 * (w - 1) IN a..a+6 :
                                     w \in {IF r.bywk[i] > 0 THEN r.bywk[i] ELSE IsoWeeksIn(y) + r.bywk[i] + 1 : i \in 1..Len(r.bywk)}
                                            \cap 1..IsoWeeksIn(y)} : AnyWd(r, n)}
  ELSE IF Has(r.byyd) THEN {n \in YdSet(y, r.byyd) : Has(r.byday) => AnyWd(r, n)}
  ELSE LET months == IF Has(r.bymon) THEN Elems(r.bymon) ELSE 1..12 IN
       IF Has(r.bymd) THEN {n \in UNION {MdSet(y, m, r.bymd) : m \in months} : Has(r.byday) => WdInMonth(r, n)}
       ELSE IF Has(r.byday)
       THEN IF Has(r.bymon) THEN UNION {UNION {NthSet(DayNum(y, m, 1), DayNum(y, m, DIM(y, m)), r.byday[i]) : i \in 1..Len(r.byday)} : m \in months}
            ELSE UNION {NthSet(Year1(y), YearN(y), r.byday[i]) : i \in 1..Len(r.byday)}
       ELSE {DayNum(y, m, c0.d) : m \in {k \in (IF Has(r.bymon) THEN months ELSE {c0.m}) : c0.d <= DIM(y, k)}}
MonthDaysOf(r, c0, y, m) ==
  IF Has(r.bymon) /\ ~In(m, r.bymon) THEN {}
  ELSE IF Has(r.bymd) THEN {n \in MdSet(y, m, r.bymd) : Has(r.byday) => WdInMonth(r, n)}
  ELSE IF Has(r.byday) THEN UNION {NthSet(DayNum(y, m, 1), DayNum(y, m, DIM(y, m)), r.byday[i]) : i \in 1..Len(r.byday)}
  ELSE IF c0.d <= DIM(y, m) THEN {DayNum(y, m, c0.d)} ELSE {}
\* n is the day of the start, moved by whole weeks
WeekDays(r, n) ==
  IF Has(r.bymon) /\ ~MonthOk(r, n) THEN {}
  ELSE IF Has(r.byday) THEN LET a == n - ((Weekday(n) - r.wkst) % 7) IN {k \in a..a+6 : AnyWd(r, k)}
  ELSE {n}
DayOk(r, n) == /\ Has(r.bymon) => MonthOk(r, n)
               /\ Has(r.byyd) => YearDayOk(r, n)
               /\ Has(r.bymd) => MonthDayOk(r, n)
               /\ Has(r.byday) => AnyWd(r, n)
Secs(r, s) == {h * 3600 + mi * 60 + se : h \in (IF Has(r.byhour) THEN Elems(r.byhour) ELSE {s.h}),
                                         mi \in (IF Has(r.bymin) THEN Elems(r.bymin) ELSE {s.n}),
                                         se \in (IF Has(r.bysec) THEN Elems(r.bysec) ELSE {s.s})}
\* positions picked from a finite set of integers
PickPos(r, S) == IF ~Has(r.bysp) THEN S
                 ELSE LET q == SetToSortSeq(S, LAMBDA a, b : a < b) n == Len(q)
                      IN {q[IF p > 0 THEN p ELSE n + p + 1] : p \in {x \in Elems(r.bysp) : x # 0 /\ (IF x > 0 THEN x <= n ELSE -x <= n)}}

(* --- one period: all candidate instants ------------------------------- *)
Cross(D, T, d0) == {(n - d0) * 86400 + t : n \in D, t \in T}
SubDay(r, s, d0, v) ==    \* sub-daily frequencies: v is the period's instant
  LET n == d0 + (v \div 86400)
      sod == v % 86400
      h == sod \div 3600
      mi == (sod % 3600) \div 60
      se == sod % 60
      base == (n - d0) * 86400
      ok == /\ DayOk(r, n)
            /\ Has(r.byhour) => In(h, r.byhour)
            /\ (r.freq # "HOURLY" /\ Has(r.bymin)) => In(mi, r.bymin)
            /\ (r.freq = "SECONDLY" /\ Has(r.bysec)) => In(se, r.bysec)
  IN IF ~ok THEN {}
     ELSE {base + h * 3600 + x * 60 + z :
             x \in (IF r.freq = "HOURLY" /\ Has(r.bymin) THEN Elems(r.bymin) ELSE {mi}),
             z \in (IF r.freq # "SECONDLY" /\ Has(r.bysec) THEN Elems(r.bysec) ELSE {se})}
PeriodSet(r, s, d0, k) ==
  LET c0 == [y |-> s.y, m |-> s.m, d |-> s.d]
      step == k * r.interval
      T == Secs(r, s)
      mm == s.m - 1 + step
      v0 == SecOfDay(s)
  IN PickPos(r, CASE r.freq = "YEARLY" -> Cross(YearDays(r, c0, s.y + step), T, d0)
                  [] r.freq = "MONTHLY" -> Cross(MonthDaysOf(r, c0, s.y + (mm \div 12), (mm % 12) + 1), T, d0)
                  [] r.freq = "WEEKLY" -> Cross(WeekDays(r, d0 + 7 * step), T, d0)
                  [] r.freq = "DAILY" -> Cross({n \in {d0 + step} : DayOk(r, n)}, T, d0)
                  [] r.freq = "HOURLY" -> SubDay(r, s, d0, v0 + 3600 * step)
                  [] r.freq = "MINUTELY" -> SubDay(r, s, d0, v0 + 60 * step)
                  [] r.freq = "SECONDLY" -> SubDay(r, s, d0, v0 + step))
\* periods that can contribute an instant below vend
LastPeriod(r, s, d0, vend) ==
  LET days == vend \div 86400
      ye == YearOf(d0 + days)
      unit == CASE r.freq = "YEARLY" -> ye - s.y + 1
                [] r.freq = "MONTHLY" -> LET c == Civ(d0 + days) IN (c.y - s.y) * 12 + c.m - s.m + 1
                [] r.freq = "WEEKLY" -> (days \div 7) + 1
                [] r.freq = "DAILY" -> days + 1
                [] r.freq = "HOURLY" -> (vend - SecOfDay(s)) \div 3600 + 1
                [] r.freq = "MINUTELY" -> (vend - SecOfDay(s)) \div 60 + 1
                [] OTHER -> vend - SecOfDay(s) + 1
  IN IF unit < 0 THEN -1 ELSE unit \div r.interval
Rel(x, d0) == (DN(x) - d0) * 86400 + SecOfDay(x)
\* fo: seconds added to UNTIL when the start is floating (0 unless the caller asks for it)
UntilV(r, d0) == (IF r.until.do = 1 THEN Rel(r.until, d0) + 86399 ELSE Rel(r.until, d0)) + (IF "fo" \in DOMAIN r THEN r.fo ELSE 0)

(* The recurrence set of a rule below vend: the start, then what the periods give, in order, cut by COUNT/UNTIL. *)
RuleSet(r, s, vend) ==
  LET d0 == DN(s)
      v0 == SecOfDay(s)
      all == {v \in UNION {PeriodSet(r, s, d0, k) : k \in 0..LastPeriod(r, s, d0, vend)} : v > v0 /\ v < vend}
      upto == IF r.hasuntil = 1 THEN {v \in all : v <= (IF s.do = 1 THEN Rel(r.until, d0) - SecOfDay(r.until) ELSE UntilV(r, d0))} ELSE all
  IN {v0} \cup (IF r.count = 0 THEN upto
                ELSE LET q == SetToSortSeq(upto, LAMBDA a, b : a < b)
                     IN {q[i] : i \in 1..(IF Len(q) < r.count - 1 THEN Len(q) ELSE r.count - 1)})
=============================================================================
