------------------------------ MODULE CivilMC ------------------------------
(* The calendar by induction: start at a known day and step one day at a time with the schoolbook rule.
   Every day in the range must agree with the closed forms of Civil. *)
EXTENDS Civil, TLC
CONSTANTS FirstYear, LastYear
VARIABLES n, y, m, d, w, wk
vars == <<n, y, m, d, w, wk>>
Init == \E yy \in FirstYear..LastYear :
          /\ y = yy /\ m = 1 /\ d = 1 /\ n = DayNum(yy, 1, 1) /\ w = Weekday(n) /\ wk = IsoWeek(n)
Next == /\ ~(m = 12 /\ d = 31)
        /\ n' = n + 1
        /\ w' = (w + 1) % 7
        /\ IF d < DIM(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE m' = m + 1 /\ d' = 1 /\ UNCHANGED y
        \* a new ISO week starts on Mondays; weeks restart at 1 when the following Thursday is in a new year
        /\ wk' = IF w' # 1 THEN wk ELSE IF (wk = 52 /\ IsoWeeksIn(IsoYear(n)) = 52) \/ wk = 53 THEN 1 ELSE wk + 1
Spec == Init /\ [][Next]_vars
Agree == /\ DayNum(y, m, d) = n
         /\ Civ(n) = [y |-> y, m |-> m, d |-> d]
         /\ Weekday(n) = w
         /\ IsoWeek(n) = wk
         /\ IsoWeek1Monday(IsoYear(n)) + 7 * (wk - 1) + IsoWd(n) - 1 = n
         /\ YearDay(y, m, d) \in 1..DIY(y)
         /\ (m = 12 /\ d = 31 => DayNum(y + 1, 1, 1) = n + 1)
NormAgree == LET r == [y |-> y, m |-> m, d |-> d, h |-> 23, n |-> 59, s |-> 59, do |-> 0, tz |-> "F"] IN
         /\ Norm(r) = r
         /\ DN(AddSecs(r, 1)) = n + 1 /\ SecOfDay(AddSecs(r, 1)) = 0
         /\ DN(Norm([r EXCEPT !.d = d - 45])) = n - 45
         /\ \A w2 \in 0..6 : LET a == DayNum(y, m, 1) b == DayNum(y, m, DIM(y, m)) IN
              /\ Weekday(NthIn(a, b, 1, w2)) = w2 /\ NthIn(a, b, 1, w2) \in a..a+6
              /\ Weekday(NthIn(a, b, -1, w2)) = w2 /\ NthIn(a, b, -1, w2) \in b-6..b
ASSUME Weekday(0) = 4 /\ Weekday(DayNum(2026, 11, 19)) = 4 /\ Weekday(DayNum(2000, 2, 29)) = 2 /\ Weekday(DayNum(1900, 1, 1)) = 1
ASSUME IsoWeek(DayNum(2016, 1, 1)) = 53 /\ IsoWeek(DayNum(2012, 12, 31)) = 1
=============================================================================
