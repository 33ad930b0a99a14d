------------------------------ MODULE P10Trace ------------------------------
EXTENDS RecurSet
InitSt_(s) == [start |-> s.init.start, rules |-> s.init.rules, exrules |-> s.init.exrules, rdates |-> s.init.rdates, exdates |-> s.init.exdates,
               rpers |-> s.init.rpers, expers |-> s.init.expers, cut |-> <<>>]
Got(e, d0) == [i \in 1..Len(e.items) |-> ItemV(e.items[i], d0) - e.items[i][7]]
ExpandStep(st, e) ==
  LET d0 == DN(st.start)
      inc == Included(st, e.lo, e.hi, d0)
      exS == Excluded(st, e.hi, d0, TRUE)
      exM == Excluded(st, e.hi, d0, FALSE)
      must == inc \ exM
      may == inc \ exS
      got == Got(e, d0)
      gset == {got[i] : i \in 1..Len(got)}
      L == Ins(e.lo, d0)
      H == Ins(e.hi, d0)
      st0 == Ins(st.start, d0)
      outside == \/ st0 < L \/ st0 >= H
                 \/ \E i \in 1..Len(st.rdates) : LET v == Ins(st.rdates[i], d0) IN v < L \/ v >= H
                 \/ \E i \in 1..Len(st.rules) : LET r == st.rules[i] IN
                      \/ \E v \in RuleIns(r, st.start, Rel(e.hi, d0), d0) \ {st0} : v < L
                      \/ r.count = 0 /\ r.hasuntil = 0
                      \/ r.count > 0 /\ Cardinality(RuleSet(r, st.start, Rel(e.hi, d0))) < r.count
      \* an instance limit
      rmust == \E i \in 1..Len(st.rules) : Cardinality(RuleSet(st.rules[i], st.start, Rel(e.hi, d0))) - 1 > e.max
      rmay == \E i \in 1..Len(st.rules) : Cardinality(RuleSet(st.rules[i], st.start, Rel(e.hi, d0))) > e.max
      smust == Cardinality(inc) > e.max
  IN IF e.ok = 0 THEN Bad(st, "expand-error", "expansion succeeds")
     ELSE IF e.ok = 2 THEN (IF e.max > 0 /\ (rmay \/ smust) THEN OK(st) ELSE Bad(st, "toomany-raised", Cardinality(inc)))
     ELSE IF e.max > 0 /\ st.cut = <<>> /\ (rmust \/ smust) THEN Bad(st, "toomany-not-raised", Cardinality(inc))
     ELSE IF \E i \in 1..Len(e.items) : ~ItemOk(e.items[i]) THEN Bad(st, "invalid-instance", "valid dates only")
     ELSE IF \E i \in 1..Len(got)-1 : got[i] >= got[i+1] THEN Bad(st, "order-or-repeat", Asc(may))
     ELSE IF ~(must \subseteq gset) THEN Bad(st, "missing-instance", Asc(must))
     ELSE IF ~(gset \subseteq may) THEN Bad(st, "extra-instance", Asc(may))
     ELSE IF outside /\ st.cut = <<>> /\ e.limited # 1 THEN Bad(st, "limited", "instances lie outside the range")
     ELSE OK(st)
Step_(st, e) ==
  CASE e.op = "expand" -> ExpandStep(st, e)
    [] e.op = "eq" -> IF e.res = SameSets(st, e.other, DN(st.start)) THEN OK(st) ELSE Bad(st, "equality", ~e.res)
    [] e.op = "exclude" -> IF e.ok # 1 THEN BadStop(st, "exclude-error", "the call succeeds") ELSE OK([st EXCEPT !.cut = <<e.at>>])
    [] e.op = "load" -> IF e.ok = 1 THEN OK(st) ELSE BadStop(st, "load-error", "the set loads")
    [] OTHER -> OK(st)
=============================================================================
