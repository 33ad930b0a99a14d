------------------------------ MODULE P04Trace ------------------------------
(***************************************************************************)
(* Durations and periods.  A session holds a few period slots; the state   *)
(* of a slot is [s, e, use] (start, end, whether it is kept as start and   *)
(* duration).  All date-times of a session are of one kind, so field       *)
(* arithmetic is exact.                                                    *)
(***************************************************************************)
EXTENDS ValueText, Harness
InitSt_(x) == [p |-> [i \in 1..3 |-> [on |-> 0]]]
Span(a, b) == PNorm(<<DN(b) - DN(a), SecOfDay(b) - SecOfDay(a)>>)        \* b - a as <<days, secs>>
LenV(p) == IF p[1] < 0 THEN LET q == PNorm(<<-p[1], -p[2]>>) IN [neg |-> 1, d |-> q[1], s |-> q[2]] ELSE [neg |-> 0, d |-> p[1], s |-> p[2]]
Plus(a, l) == LET sg == IF l.neg = 1 THEN -1 ELSE 1 IN
              IF a.do = 1 THEN AddDays(a, sg * l.d) ELSE Norm([a EXCEPT !.d = a.d + sg * l.d, !.s = a.s + sg * l.s])
C2(a, b) == FieldCmp(a, b)
PC(p, q) == IF C2(p.s, q.s) # 0 THEN C2(p.s, q.s) ELSE C2(p.e, q.e)
Total(c) == LET p == PNorm(<<c.w * 7 + c.d, c.h * 3600 + c.n * 60 + c.s>>) IN
            [neg |-> IF c.fwd = 0 /\ p # <<0, 0>> THEN 1 ELSE 0, d |-> p[1], s |-> p[2]]
SameDt(a, b) == SameFields(a, b) /\ a.tz = b.tz
OffOf(tz) == IF StartsWith(tz, "O") THEN IntOf(From(tz, 2)) ELSE 0
ToZ(r) == IF r.do = 1 \/ r.tz \in {"F", "Z"} THEN r ELSE [AddSecs(r, -OffOf(r.tz)) EXCEPT !.tz = "Z"]
\* what a slot must answer when looked at
LookOk(st, e, p) ==
  LET v == e.o
      len == LenV(Span(p.s, p.e))
  IN IF ~SameDt(v.start, p.s) THEN Bad(st, "period-start", p)
     ELSE IF ~SameDt(v.end, p.e) THEN Bad(st, "period-end", p)
     ELSE IF v.len # len THEN Bad(st, "period-duration", len)
     ELSE IF v.use # p.use THEN Bad(st, "period-form", p.use)
     ELSE LET t == PVal("per", v.text, TRUE) IN
          IF t.k = "ok" /\ ~(SameDt(t.v.start, [p.s EXCEPT !.tz = t.v.start.tz])
                             /\ (IF t.v.dur = 1 THEN t.v.len = len /\ p.use = 1 ELSE p.use = 0 /\ SameDt(t.v.end, [p.e EXCEPT !.tz = t.v.end.tz])))
          THEN Bad(st, "period-text", p)
          ELSE OK(st)
Cmp(st, e, c) ==
  IF e.eq # (c = 0) THEN Bad(st, "equality", c)
  ELSE IF e.ne # (c # 0) THEN Bad(st, "not-equal", c)
  ELSE IF e.lt # (c < 0) \/ e.gt # (c > 0) \/ e.le # (c <= 0) \/ e.ge # (c >= 0) THEN Bad(st, "order", c)
  ELSE IF c = 0 /\ ~e.hash THEN Bad(st, "hash", TRUE)
  ELSE OK(st)
Step_(st, e) ==
  IF e.ok = 0 THEN BadStop(st, "operation-fails", e.exc)
  ELSE CASE e.op = "dur" ->      \* a duration made from seconds, parts or text
         LET want == IF e.how = "text" THEN PVal("dur", e.text, TRUE).v ELSE LenV(PNorm(<<e.days, e.secs>>)) IN
         IF e.o.total # want THEN Bad(st, "duration-length", want)
         ELSE IF Total(e.o.parts) # want THEN Bad(st, "duration-parts", want)
         ELSE IF e.o.parts.w # 0 /\ e.o.parts.d + e.o.parts.h + e.o.parts.n + e.o.parts.s # 0 /\ e.how # "text" THEN Bad(st, "duration-weeks-with-parts", want)
         ELSE IF PVal("dur", e.o.text, TRUE).k # "ok" \/ PVal("dur", e.o.text, TRUE).v # want THEN Bad(st, "duration-text", want)
         ELSE OK(st)
    [] e.op = "durcmp" ->
         LET a == PNorm(<<e.a[1], e.a[2]>>)
             b == PNorm(<<e.b[1], e.b[2]>>)
         IN Cmp(st, e, PCmp(a, b))
    [] e.op = "new" ->
         OK([st EXCEPT !.p[e.i] = [on |-> 1, s |-> e.s, e |-> IF e.use = 1 THEN Plus(e.s, [neg |-> 0, d |-> e.days, s |-> e.secs]) ELSE e.e, use |-> e.use]])
    [] e.op = "use" -> OK([st EXCEPT !.p[e.i].use = e.use])
    [] e.op = "dup" -> OK([st EXCEPT !.p[e.j] = st.p[e.i]])
    [] e.op = "utc" -> OK([st EXCEPT !.p[e.i].s = ToZ(st.p[e.i].s), !.p[e.i].e = ToZ(st.p[e.i].e)])
    [] e.op = "reparse" -> OK([st EXCEPT !.p[e.i].use = e.keep])
    [] e.op = "look" -> LookOk(st, e, st.p[e.i])
    [] e.op = "point" ->
         LET p == st.p[e.i]
             a == C2(e.t, p.s)
             b == C2(e.t, p.e)
         IN IF e.within # (a >= 0 /\ b < 0) THEN Bad(st, "contains", a >= 0 /\ b < 0)
            ELSE IF e.before # (a < 0) THEN Bad(st, "before", a < 0)
            ELSE IF e.after # (b >= 0) THEN Bad(st, "after", b >= 0)
            ELSE OK(st)
    [] e.op = "pair" ->
         LET p == st.p[e.i]
             q == st.p[e.j]
             ov == C2(p.s, q.e) < 0 /\ C2(q.s, p.e) < 0
             empty == C2(p.s, p.e) >= 0 \/ C2(q.s, q.e) >= 0
         IN IF ~empty /\ e.overlap # ov THEN Bad(st, "overlap", ov)
            ELSE Cmp(st, e, PC(p, q))
    [] e.op = "sort" ->
         LET q == e.o IN
         IF \E k \in 1..Len(q) - 1 : PC(q[k], q[k + 1]) > 0 THEN Bad(st, "sort-order", "by start, then end")
         ELSE IF \E x \in 1..Len(e.given) : Cardinality({k \in 1..Len(q) : PC(q[k], e.given[x]) = 0}) # Cardinality({k \in 1..Len(e.given) : PC(e.given[k], e.given[x]) = 0})
              THEN Bad(st, "sort-content", "the same periods") ELSE OK(st)
=============================================================================
