------------------------------ MODULE P08Trace ------------------------------
(* A session handles several rule objects; the state is just the rule each one stands for:
   nothing else of the history may show.  Each expansion is also done by a new object of that rule. *)
EXTENDS RecurObs
InitSt_(s) == [rules |-> <<s.init.rule>>, cut |-> << <<>> >>]
Same(e) == e.ok = e.fresh.ok /\ e.items = e.fresh.items /\ e.kind = e.fresh.kind
ExpandStep(st, e) ==
  LET r == IF e.fo = 0 THEN st.rules[e.o] ELSE [st.rules[e.o] EXCEPT !.fo = e.fo]
      d0 == DN(e.start)
      full == RuleSet(r, e.start, Rel(e.hi, d0))
      n == Cardinality(full)
  IN IF e.ok = 0 \/ e.fresh.ok = 0 THEN Bad(st, "expand-error", "expansion succeeds")
     ELSE IF e.max > 0 /\ n - 1 > e.max /\ e.ok # 2 THEN Bad(st, "toomany-not-raised", n)
     ELSE IF (e.max = 0 \/ n <= e.max) /\ e.ok = 2 THEN Bad(st, "toomany-raised", n)
     ELSE IF e.ok # e.fresh.ok THEN Bad(st, "toomany-history", e.fresh.ok)
     ELSE IF e.ok = 2 THEN OK(st)
     ELSE LET v == ExpandVerdict(r, e.start, e, st) IN
          IF v.bad # "" THEN v
          ELSE IF ~Same(e) THEN Bad(st, "not-as-fresh", e.fresh.items) ELSE OK(st)
\* after excludeFutureRecurrence(at) only what was before at is left
CutStep(st, e) ==
  LET r == st.rules[e.o]
      d0 == DN(e.start)
      full == RuleSet(r, e.start, Rel(e.hi, d0))
      want == {v \in full : v >= Rel(e.lo, d0) /\ v < Rel(e.hi, d0) /\ v < Rel(st.cut[e.o][1], d0)} \ {SecOfDay(e.start)}
      got == {ItemV(e.items[i], d0) : i \in 1..Len(e.items)}
  IN IF e.ok # 1 THEN Bad(st, "expand-error", "expansion succeeds")
     ELSE IF got \ {SecOfDay(e.start)} # want THEN Bad(st, "excluded-future", SetToSortSeq(want, LAMBDA a, b : a < b))
     ELSE OK(st)
Step_(st, e) ==
  CASE e.op = "expand" -> IF st.cut[e.o] = <<>> THEN ExpandStep(st, e) ELSE CutStep(st, e)
    [] e.op = "set" -> IF e.ok # 1 THEN BadStop(st, "setter-error", "the setter succeeds")
                       ELSE OK([st EXCEPT !.rules[e.o] = e.rule])
    [] e.op = "dup" -> IF e.ok # 1 THEN BadStop(st, "copy-error", "the copy succeeds")
                       ELSE OK([rules |-> Append(st.rules, st.rules[e.o]), cut |-> Append(st.cut, st.cut[e.o])])
    [] e.op = "exclude" -> IF e.ok # 1 THEN BadStop(st, "exclude-error", "the call succeeds")
                           ELSE OK([st EXCEPT !.cut[e.o] = <<e.at>>])
    [] OTHER -> OK(st)
=============================================================================
