--------------------------------- MODULE Tz ---------------------------------
(***************************************************************************)
(* Timezone definitions (RFC 5545 3.6.5).  A definition is a sequence of   *)
(* observances [start, from, to, name, rules, rdates]; its onsets are the  *)
(* local times (in the offset before) of the start, rule instances and     *)
(* RDATEs.  Instants are <<day, second of day>> pairs.                     *)
(***************************************************************************)
EXTENDS RecurObs
P(r) == PNorm(<<DN(r), SecOfDay(r)>>)
Shift(p, k) == PNorm(<<p[1], p[2] + k>>)
PLeq(a, b) == a = b \/ PLess(a, b)
WithFo(r, o) == IF r.hasuntil = 1 /\ r.until.do = 0 /\ r.until.tz = "Z" THEN r @@ [fo |-> o.from] ELSE r
OnsetsOf(o, hi) ==     \* before hi (a date record)
  LET d0 == DN(o.start)
      H == P(hi)
  IN {p \in {P(o.start)} \cup {P(o.rdates[i]) : i \in 1..Len(o.rdates)}
           \cup UNION {{PNorm(<<d0, v>>) : v \in RuleSet(WithFo(o.rules[i], o), o.start, Rel(hi, d0))} : i \in 1..Len(o.rules)} : PLess(p, H)}
Trans(def, hi) == UNION {{[loc |-> p, utc |-> Shift(p, -def[i].from), from |-> def[i].from, to |-> def[i].to, name |-> def[i].name]
                          : p \in OnsetsOf(def[i], hi)} : i \in 1..Len(def)}
TSeq(T) == SetToSortSeq(T, LAMBDA a, b : PLess(a.utc, b.utc))
\* onsets are well apart: order in local time and in UTC agree, and no onset falls in another's gap
FarApart(q) == \A i \in 1..Len(q) - 1 : q[i + 1].utc[1] - q[i].utc[1] >= 3
Chained(q) == \A i \in 1..Len(q) - 1 : q[i].to = q[i + 1].from
RECURSIVE CountUpTo(_, _, _, _, _)
CountUpTo(q, p, utc, a, b) ==        \* number of onsets at or before p (binary search; q sorted)
  IF a > b THEN b
  ELSE LET m == (a + b) \div 2 IN IF PLeq(IF utc THEN q[m].utc ELSE q[m].loc, p) THEN CountUpTo(q, p, utc, m + 1, b) ELSE CountUpTo(q, p, utc, a, m - 1)
At(q, p, utc) == CountUpTo(q, p, utc, 1, Len(q))      \* 0: before the first onset
Num2(n) == (IF n < 10 THEN "0" ELSE "") \o ToString(n)
Descr(t) == IF t.name # "" THEN "(" \o t.name \o ")"
            ELSE LET a == IF t.to < 0 THEN -t.to ELSE t.to IN (IF t.to < 0 THEN "-" ELSE "+") \o Num2(a \div 3600) \o Num2((a \div 60) % 60)
InGap(q, p) == \E i \in 1..Len(q) : q[i].to > q[i].from /\ PLeq(q[i].loc, p) /\ PLess(p, Shift(q[i].loc, q[i].to - q[i].from))
InFold(q, p) == \E i \in 1..Len(q) : q[i].to < q[i].from /\ PLeq(Shift(q[i].loc, q[i].to - q[i].from), p) /\ PLess(p, q[i].loc)
=============================================================================
