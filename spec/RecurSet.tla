------------------------------ MODULE RecurSet ------------------------------
(***************************************************************************)
(* Recurrence sets (RFC 5545 3.8.5): start, RRULEs, RDATEs and RDATE       *)
(* periods, minus EXRULEs, EXDATEs and EXDATE periods.  Instants are       *)
(* seconds relative to d0 (the day of the start) in UTC; each date record  *)
(* carries off, its offset from UTC in seconds.                            *)
(***************************************************************************)
EXTENDS RecurObs
Ins(x, d0) == Rel(x, d0) - x.off
RuleIns(r, s, hi, d0) == {v - s.off : v \in RuleSet(r, s, hi)}      \* hi: local range end of the start's zone
HasBy(r) == Has(r.bysec) \/ Has(r.bymin) \/ Has(r.byhour) \/ Has(r.byday) \/ Has(r.bymd) \/ Has(r.byyd) \/ Has(r.bywk) \/ Has(r.bymon) \/ Has(r.bysp)
Cut(st, S, d0) == IF st.cut = <<>> THEN S ELSE {v \in S : v < Ins(st.cut[1], d0)}
Included(st, lo, hi, d0) ==
  LET s == st.start
      L == Ins(lo, d0)
      H == Ins(hi, d0)
      In1(v) == v >= L /\ v < H
  IN {v \in {Ins(s, d0)} : In1(v)}
     \cup Cut(st, UNION {{v \in RuleIns(st.rules[i], s, Rel(hi, d0), d0) : In1(v)} : i \in 1..Len(st.rules)}
                  \cup {v \in {Ins(st.rdates[i], d0) : i \in 1..Len(st.rdates)} : In1(v)}
                  \cup {Ins(st.rpers[i].s, d0) : i \in {j \in 1..Len(st.rpers) : Ins(st.rpers[j].s, d0) < H /\ Ins(st.rpers[j].e, d0) > L}}, d0)
\* an exclusion rule has the start as an instance when it matches its parts (not fixed when it has COUNT as well)
ExStartSurely(r, s, d0) == ~HasBy(r) \/ (r.count = 0 /\ SecOfDay(s) \in PeriodSet(r, s, d0, 0))
ExStartMaybe(r, s, d0) == ExStartSurely(r, s, d0) \/ (r.count > 0 /\ SecOfDay(s) \in PeriodSet(r, s, d0, 0))
ExDatesOf(st, d0) == {Ins(st.exdates[i], d0) : i \in 1..Len(st.exdates)} \cup {Ins(st.expers[i].s, d0) : i \in 1..Len(st.expers)}
Excluded(st, hi, d0, surely) ==
  ExDatesOf(st, d0)
  \cup UNION {(RuleIns(st.exrules[i], st.start, Rel(hi, d0), d0) \ {Ins(st.start, d0)})
              \cup (IF (IF surely THEN ExStartSurely(st.exrules[i], st.start, d0) ELSE ExStartMaybe(st.exrules[i], st.start, d0))
                    THEN {Ins(st.start, d0)} ELSE {}) : i \in 1..Len(st.exrules)}
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
\* equality of two sets of rules and dates, as bags
NormRule(r) == [r EXCEPT !.bysec = Elems(r.bysec), !.bymin = Elems(r.bymin), !.byhour = Elems(r.byhour), !.byday = Elems(r.byday),
                !.bymd = Elems(r.bymd), !.byyd = Elems(r.byyd), !.bywk = Elems(r.bywk), !.bymon = Elems(r.bymon), !.bysp = Elems(r.bysp)]
BagOf(q, F(_)) == LET img == {F(q[i]) : i \in 1..Len(q)} IN [x \in img |-> Cardinality({i \in 1..Len(q) : F(q[i]) = x})]
SameSets(a, b, d0) == LET I(x) == Ins(x, d0)
                          P(x) == <<Ins(x.s, d0), Ins(x.e, d0)>>
                      IN /\ BagOf(a.rules, NormRule) = BagOf(b.rules, NormRule)
                         /\ BagOf(a.exrules, NormRule) = BagOf(b.exrules, NormRule)
                         /\ BagOf(a.rdates, I) = BagOf(b.rdates, I) /\ BagOf(a.exdates, I) = BagOf(b.exdates, I)
                         /\ BagOf(a.rpers, P) = BagOf(b.rpers, P) /\ BagOf(a.expers, P) = BagOf(b.expers, P)
=============================================================================
