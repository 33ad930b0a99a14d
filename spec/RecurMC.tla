------------------------------ MODULE RecurMC ------------------------------
(* The generative definition of Recur against an independent one: a walker steps through the days of the calendar one
   by one and decides membership of each day by testing the rule's conditions on it (a filter), collecting positions
   within the current period as it goes. *)
EXTENDS Recur, TLC
CONSTANTS Horizon, Intervals, StartNos
VARIABLES rule, start, n, got, per, pend
vars == <<rule, start, n, got, per, pend>>
Base == [freq |-> "DAILY", interval |-> 1, count |-> 0, hasuntil |-> 0, until |-> [do |-> 1], wkst |-> 1,
         bysec |-> <<>>, bymin |-> <<>>, byhour |-> <<>>, byday |-> <<>>, bymd |-> <<>>, byyd |-> <<>>, bywk |-> <<>>, bymon |-> <<>>, bysp |-> <<>>]
Y(r) == [r EXCEPT !.freq = "YEARLY"]
M(r) == [r EXCEPT !.freq = "MONTHLY"]
W(r) == [r EXCEPT !.freq = "WEEKLY"]
Pos == {<<>>, <<1>>, <<-1>>, <<2, -2>>}
Core ==
  {Y([Base EXCEPT !.bymon = mo, !.byday = bd, !.bysp = p]) : mo \in {<<>>, <<2>>, <<1, 12>>}, bd \in {<<>>, <<<<0, 1>>>>, <<<<1, 0>>, <<-1, 5>>>>, <<<<5, 3>>>>}, p \in Pos}
  \cup {Y([Base EXCEPT !.bymon = mo, !.bymd = md, !.byday = bd]) : mo \in {<<>>, <<2, 3>>}, md \in {<<1, 31>>, <<-1>>, <<29>>, <<13>>}, bd \in {<<>>, <<<<0, 5>>>>}}
  \cup {Y([Base EXCEPT !.byyd = yd, !.bysp = p]) : yd \in {<<1, 60, 366>>, <<-1, -366, 200>>, <<100>>}, p \in Pos}
  \cup {Y([Base EXCEPT !.bywk = wk, !.byday = bd, !.bysp = p]) : wk \in {<<1>>, <<53, 20>>, <<52>>}, bd \in {<<<<0, 1>>>>, <<<<0, 0>>, <<0, 6>>, <<0, 3>>>>}, p \in Pos}
  \cup {M([Base EXCEPT !.bymon = mo, !.byday = bd, !.bymd = md, !.bysp = p]) : mo \in {<<>>, <<2, 7>>}, bd \in {<<>>, <<<<0, 1>>, <<0, 2>>>>, <<<<2, 4>>, <<-1, 0>>>>},
                                                                              md \in {<<>>, <<1, 30>>, <<-1, -31>>}, p \in Pos}
  \cup {W([Base EXCEPT !.byday = bd, !.wkst = w, !.bysp = p]) : bd \in {<<>>, <<<<0, 0>>, <<0, 3>>>>}, w \in {0, 1, 4}, p \in Pos}
  \cup {[Base EXCEPT !.bymon = mo, !.byday = bd, !.bymd = md] : mo \in {<<>>, <<2, 12>>}, bd \in {<<>>, <<<<0, 1>>>>}, md \in {<<>>, <<1, -1>>}}
Rules == {[r EXCEPT !.interval = i] : r \in Core, i \in Intervals}
StartSeq == <<[y |-> 2023, m |-> 1, d |-> 31, h |-> 0, n |-> 0, s |-> 0, do |-> 1, tz |-> "F"],
           [y |-> 2024, m |-> 2, d |-> 29, h |-> 0, n |-> 0, s |-> 0, do |-> 1, tz |-> "F"],
           [y |-> 2024, m |-> 12, d |-> 30, h |-> 0, n |-> 0, s |-> 0, do |-> 1, tz |-> "F"]>>
D0 == DN(start)
\* which period a day belongs to; -1 when the interval skips it
PeriodNo(k) ==
  LET c == Civ(k) IN
  CASE rule.freq = "YEARLY" -> (IF Has(rule.bywk) THEN IsoYear(k) ELSE c.y) - start.y
    [] rule.freq = "MONTHLY" -> (c.y - start.y) * 12 + c.m - start.m
    [] rule.freq = "WEEKLY" -> ((k - rule.wkst + 4) \div 7) - ((D0 - rule.wkst + 4) \div 7)
    [] OTHER -> k - D0
Aligned(k) == PeriodNo(k) >= 0 /\ PeriodNo(k) % rule.interval = 0
Member(k) ==
  LET c == Civ(k)
      r == rule
      noday == ~Has(r.bymd) /\ ~Has(r.byday) /\ ~Has(r.byyd) /\ ~Has(r.bywk)
  IN /\ Has(r.bymon) => In(c.m, r.bymon)
     /\ Has(r.bywk) => In(IsoWeek(k), r.bywk)
     /\ Has(r.byyd) => YearDayOk(r, k)
     /\ Has(r.bymd) => MonthDayOk(r, k)
     /\ Has(r.byday) => IF r.freq = "YEARLY" /\ ~Has(r.bymon) /\ ~Has(r.bymd) /\ ~Has(r.bywk) THEN WdInYear(r, k)
                        ELSE IF r.freq \in {"YEARLY", "MONTHLY"} /\ ~Has(r.bywk) THEN WdInMonth(r, k) ELSE AnyWd(r, k)
     /\ (r.freq = "YEARLY" /\ noday) => (c.d = start.d /\ (Has(r.bymon) \/ c.m = start.m))
     /\ (r.freq = "MONTHLY" /\ noday) => c.d = start.d
     /\ (r.freq = "WEEKLY" /\ noday) => Weekday(k) = Weekday(D0)
FirstOfWalk == DayNum(start.y - 1, 12, 1)
Init == /\ rule \in Rules /\ start \in {StartSeq[i] : i \in StartNos}
        /\ n = FirstOfWalk /\ got = {} /\ per = -1000 /\ pend = <<>>
Flush(q) == IF ~Has(rule.bysp) THEN {q[i] : i \in 1..Len(q)}
            ELSE {q[i] : i \in {j \in 1..Len(q) : In(j, rule.bysp) \/ In(j - Len(q) - 1, rule.bysp)}}
Next == /\ n <= D0 + Horizon
        /\ n' = n + 1
        /\ UNCHANGED <<rule, start>>
        /\ LET p == PeriodNo(n)
               fresh == p # per
               q == IF fresh THEN <<>> ELSE pend
           IN /\ per' = p
              /\ got' = IF fresh THEN got \cup Flush(pend) ELSE got
              /\ pend' = IF Aligned(n) /\ Member(n) THEN Append(q, n) ELSE q
Spec == Init /\ [][Next]_vars
\* at the end of the walk both definitions agree on every flushed day after the start
Agree == n = D0 + Horizon + 1 =>
           LET lo == D0 hi == (IF pend = <<>> THEN n ELSE pend[1]) - 400   \* stay clear of the unfinished period
               a == {k \in got : k > lo /\ k < hi}
               b == {D0 + (v \div 86400) : v \in RuleSet(rule, start, (Horizon + 400) * 86400)}
           IN a = {k \in b : k > lo /\ k < hi}
=============================================================================
