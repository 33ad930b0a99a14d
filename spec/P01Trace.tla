------------------------------ MODULE P01Trace ------------------------------
(* Date arithmetic: the abstract state is the date-time value; every event is one operation on the real value,
   with the fields observed afterwards. *)
EXTENDS Civil, Harness

\* ---- the transition of each operation on the value
OffYear(r, k) == Norm([r EXCEPT !.y = r.y + k])
OffMonth(r, k) == Norm([r EXCEPT !.m = r.m + k])
OffDay(r, k) == Norm([r EXCEPT !.d = r.d + k])
OffHour(r, k) == Norm([r EXCEPT !.h = r.h + k])
OffMin(r, k) == Norm([r EXCEPT !.n = r.n + k])
OffSec(r, k) == Norm([r EXCEPT !.s = r.s + k])
SetYearDay(r, k) == LET a == DayNum(r.y, 1, 1) b == DayNum(r.y, 12, 31) IN WithDay(r, IF k > 0 THEN a + k - 1 ELSE b + k + 1)
SetMonthDay(r, k) == LET a == DayNum(r.y, r.m, 1) b == DayNum(r.y, r.m, DIM(r.y, r.m)) IN WithDay(r, IF k > 0 THEN a + k - 1 ELSE b + k + 1)
SetNthInMonth(r, k, w) == WithDay(r, NthIn(DayNum(r.y, r.m, 1), DayNum(r.y, r.m, DIM(r.y, r.m)), k, w))
SetNthInYear(r, k, w) == WithDay(r, NthIn(DayNum(r.y, 1, 1), DayNum(r.y, 12, 31), k, w))
SetNextDow(r, start, w) == LET a == DayNum(r.y, r.m, start) IN WithDay(r, a + ((w - Weekday(a)) % 7))
\* a date already carrying that week number stays; otherwise same weekday in that ISO week of the calendar year
SetWeekNo(r, k) == IF IsoWeek(DN(r)) = k THEN r ELSE WithDay(r, IsoWeek1Monday(r.y) + 7 * (k - 1) + IsoWd(DN(r)) - 1)
IsMonthDay(r, k) == IF k > 0 THEN r.d = k ELSE IF k < 0 THEN r.d = DIM(r.y, r.m) + k + 1 ELSE FALSE
IsNthInMonth(r, k, w) == /\ Weekday(DN(r)) = w
                         /\ k # 0 => DN(r) = NthIn(DayNum(r.y, r.m, 1), DayNum(r.y, r.m, DIM(r.y, r.m)), k, w)
SimpleRecur(r, f, k) == CASE f = "SECONDLY" -> OffSec(r, k) [] f = "MINUTELY" -> OffMin(r, k) [] f = "HOURLY" -> OffHour(r, k)
                          [] f = "DAILY" -> OffDay(r, k) [] f = "WEEKLY" -> OffDay(r, 7 * k)
                          [] f = "YEARLY" -> OffYear(r, k)
                          [] f = "MONTHLY" -> OffMonth(r, k)

Apply(r, e) ==
  CASE e.op = "offsetYear" -> OffYear(r, e.k)
    [] e.op = "offsetMonth" -> OffMonth(r, e.k)
    [] e.op = "offsetDay" -> OffDay(r, e.k)
    [] e.op = "offsetHours" -> OffHour(r, e.k)
    [] e.op = "offsetMinutes" -> OffMin(r, e.k)
    [] e.op = "offsetSeconds" -> OffSec(r, e.k)
    [] e.op = "add" -> OffSec(r, e.k)
    [] e.op = "sub" -> OffSec(r, -e.k)
    [] e.op = "setYearDay" -> SetYearDay(r, e.k)
    [] e.op = "setMonthDay" -> SetMonthDay(r, e.k)
    [] e.op = "setDayOfWeekInMonth" -> SetNthInMonth(r, e.k, e.w)
    [] e.op = "setDayOfWeekInYear" -> SetNthInYear(r, e.k, e.w)
    [] e.op = "setNextDayOfWeek" -> SetNextDow(r, e.k, e.w)
    [] e.op = "setWeekNo" -> SetWeekNo(r, e.k)
    [] e.op = "recur" -> SimpleRecur(r, e.f, e.k)
    [] e.op = "set" -> e.to                 \* the fields were assigned (possibly out of range) and normalised
    [] OTHER -> r

InDomain(x) == x.y \in 1754..9998
InitSt_(s) == s.init
Step_(st, e) ==
  CASE e.op = "facts" ->
         LET n == DN(st)
             x == [dow |-> Weekday(n), yd |-> YearDay(st.y, st.m, st.d), wk |-> IsoWeek(n), days |-> n,
                   inv |-> 0, leap |-> IF IsLeap(st.y) THEN 1 ELSE 0, dim |-> DIM(st.y, st.m)]
         IN IF e.res = x THEN OK(st) ELSE Bad(st, "facts", x)
    [] e.op = "isMonthDay" -> Check(st, e.res = (IF IsMonthDay(st, e.k) THEN 1 ELSE 0), "isMonthDay", IsMonthDay(st, e.k))
    [] e.op = "isDayOfWeekInMonth" -> Check(st, e.res = (IF IsNthInMonth(st, e.k, e.w) THEN 1 ELSE 0), "isDayOfWeekInMonth", IsNthInMonth(st, e.k, e.w))
    [] e.op = "isWeekNo" -> Check(st, e.res = (IF IsoWeek(DN(st)) = e.k THEN 1 ELSE 0), "isWeekNo", IsoWeek(DN(st)))
    [] e.op = "invalid" -> \* validity of an arbitrary year/month/day triple
         Check(st, e.res = (IF ValidDate(e.y, e.m, e.d) THEN 0 ELSE 1), "invalid", ValidDate(e.y, e.m, e.d))
    [] e.op = "assign" -> LET x == Norm([st EXCEPT !.y = e.y, !.m = e.m, !.d = e.d, !.h = e.h, !.n = e.n, !.s = e.s])
                          IN IF e.ok = 1 /\ SameFields(e.res, x) THEN OK(x) ELSE BadStop(st, "assign", x)
    [] e.op = "recur" /\ e.f = "MONTHLY" /\ st.d > 28 ->   \* "one month after the 31st" has no prescribed meaning
         IF e.ok = 1 /\ ValidDate(e.res.y, e.res.m, e.res.d) THEN OK(e.res) ELSE BadStop(st, e.op, "a valid date")
    [] OTHER -> LET x == Apply(st, e)
                IN IF ~InDomain(x) THEN OKStop(st) ELSE IF e.ok = 1 /\ SameFields(e.res, x) THEN OK(x) ELSE BadStop(st, e.op, x)
=============================================================================
