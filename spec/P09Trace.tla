------------------------------ MODULE P09Trace ------------------------------
(* Recurrence rule values: text, jCal, copies, equality, hash. *)
EXTENDS RRuleText, Harness
InitSt_(s) == [x |-> 0]
IsoUntil(t) ==   \* YYYY-MM-DD[THH:MM:SS[Z]]
  IF Len(t) = 10 /\ Ch(t, 5) = "-" /\ Ch(t, 8) = "-" THEN Subst(t, "-", "")
  ELSE IF Len(t) \in {19, 20} /\ Ch(t, 5) = "-" /\ Ch(t, 8) = "-" /\ Ch(t, 11) = "T" /\ Ch(t, 14) = ":" /\ Ch(t, 17) = ":" THEN Subst(Subst(t, "-", ""), ":", "")
  ELSE "bad"
\* jCal: a sequence of [key, values]
JText(j) == JoinWith([i \in 1..Len(j) |-> Upper(j[i].k) \o "=" \o (IF j[i].k = "until" THEN IsoUntil(JoinWith(j[i].v, ",")) ELSE JoinWith(j[i].v, ","))], ";")
KeysOk(j) == \A i \in 1..Len(j) : Upper(j[i].k) # j[i].k
Same(a, r) == RuleKey(a) = RuleKey(r)
Step_(st, e) ==
  LET p == Parse(e.text) IN
  IF p.k = "free" THEN OK(st)
  ELSE IF p.k = "reject" THEN Check(st, e.ok = 0, "bad-text-accepted", "an error")
  ELSE IF e.ok = 0 THEN Bad(st, "good-text-rejected", p.r)
  ELSE LET r == p.r IN
    CASE e.op = "parse" ->
           IF ~Same(e.rec, r) THEN Bad(st, "parsed-parts", r)
           ELSE LET g == Parse(e.gen) IN
                IF g.k # "ok" \/ ~Same(g.r, r) THEN Bad(st, "generated-text", r)
                ELSE IF ~Same(e.again, r) THEN Bad(st, "reread", r)
                ELSE IF ~Same(e.dup, r) THEN Bad(st, "copy", r)
                ELSE IF ~e.dupeq THEN Bad(st, "copy-equal", TRUE)
                ELSE IF ~e.againeq THEN Bad(st, "reread-equal", TRUE)
                ELSE LET j == Parse(JText(e.json)) IN
                IF ~KeysOk(e.json) \/ j.k # "ok" \/ ~Same(j.r, r) THEN Bad(st, "jcal", r)
                ELSE IF ~Same(e.jread, r) THEN Bad(st, "jcal-reread", r)
                ELSE IF ~e.jeq THEN Bad(st, "jcal-equal", TRUE)
                ELSE OK(st)
      [] e.op = "eq" ->
           LET q == Parse(e.other) IN
           IF q.k # "ok" THEN OK(st)
           ELSE LET want == RuleKey(q.r) = RuleKey(r) IN
                IF e.eq # want \/ e.ne = want THEN Bad(st, "equality", want)
                ELSE IF want /\ ~e.hash THEN Bad(st, "hash", TRUE)
                ELSE OK(st)
=============================================================================
