------------------------------ MODULE RecurObs ------------------------------
(* What one call of Recurrence.expand must return. *)
EXTENDS Recur, Harness
ItemV(it, d0) == (DayNum(it[1], it[2], it[3]) - d0) * 86400 + it[4] * 3600 + it[5] * 60 + it[6]
ItemOk(it) == ValidDate(it[1], it[2], it[3]) /\ it[4] \in 0..23 /\ it[5] \in 0..59 /\ it[6] \in 0..59
\* everything observed by one expand call against the set the specification gives
ExpandVerdict(r, s, e, st) ==
  LET d0 == DN(s)
      lo == Rel(e.lo, d0)
      hi == Rel(e.hi, d0)
      full == RuleSet(r, s, hi)
      want == {v \in full : v >= lo /\ v < hi} \ {SecOfDay(s)}
      got == [i \in 1..Len(e.items) |-> ItemV(e.items[i], d0)]
      gset == {got[i] : i \in 1..Len(got)}
      \* is any instance besides the start outside the range?
      outside == \/ \E v \in full \ {SecOfDay(s)} : v < lo
                 \/ IF r.count > 0 THEN Cardinality(full) < r.count
                    ELSE IF r.hasuntil = 1 THEN hi <= UntilV(r, d0) /\ RuleSet(r, s, UntilV(r, d0) + 1) # {v \in full : v < hi} \cup {SecOfDay(s)}
                    ELSE TRUE
      inside == SecOfDay(s) >= lo /\ SecOfDay(s) < hi /\ ~outside
  IN IF e.ok # 1 THEN Bad(st, "expand-error", "expansion succeeds")
     ELSE IF \E i \in 1..Len(e.items) : ~ItemOk(e.items[i]) THEN Bad(st, "invalid-instance", "valid dates only")
     ELSE IF e.kind # 1 THEN Bad(st, "instance-kind", "instances have the zone and value type of the start")
     ELSE IF Cardinality(gset) # Len(got) THEN Bad(st, "duplicate-instance", SetToSortSeq(want, LAMBDA a, b : a < b))
     ELSE IF gset \ {SecOfDay(s)} # want
          THEN Bad(st, IF want \subseteq gset THEN "extra-instance" ELSE "missing-instance",
                   [extra |-> SetToSortSeq(gset \ (want \cup {SecOfDay(s)}), LAMBDA a, b : a < b), missing |-> SetToSortSeq(want \ gset, LAMBDA a, b : a < b)])
     ELSE IF SecOfDay(s) \in gset /\ ~(SecOfDay(s) >= lo /\ SecOfDay(s) < hi) THEN Bad(st, "extra-instance", "the start is outside the range")
     ELSE IF outside /\ e.limited # 1 THEN Bad(st, "limited", "instances lie outside the range")
     ELSE IF inside /\ r.count > 0 /\ e.limited # 0 THEN Bad(st, "limited-count", "the whole set is inside the range")
     ELSE OK(st)
=============================================================================
