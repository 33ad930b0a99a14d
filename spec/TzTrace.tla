------------------------------ MODULE TzTrace ------------------------------
(***************************************************************************)
(* Queries on a timezone definition.  The state is the definition alone:   *)
(* an answer may depend on nothing else (P06), and must be the one the     *)
(* governing observance gives (P05).                                       *)
(***************************************************************************)
EXTENDS Tz
InitSt_(s) == LET q == TSeq(Trans(s.init.def, s.init.hi)) IN [q |-> q, ok |-> FarApart(q) /\ Chained(q)]
Q(e) == P(e.dt)
ToP(x) == PNorm(<<DayNum(x[1], x[2], x[3]), x[4] * 3600 + x[5] * 60 + x[6]>>)
Step_(st, e) ==
  LET q == st.q IN
  IF ~st.ok THEN OKStop(st)
  ELSE IF e.op = "dup" THEN OK(st)
  ELSE IF e.ok = 0 THEN Bad(st, "query-fails", e.exc)
  ELSE CASE e.op = "off" ->
         LET i == At(q, Q(e), e.rel = 1) IN
         IF i = 0 THEN OK(st) ELSE Check(st, e.o = q[i].to, IF e.rel = 1 THEN "offset-at-utc" ELSE "offset-at-local", q[i])
    [] e.op = "desc" ->
         LET i == At(q, Q(e), FALSE) IN
         IF i = 0 THEN OK(st) ELSE Check(st, e.o = Descr(q[i]), "abbreviation", q[i])
    [] e.op = "range" ->
         LET H == P(e.hi)
             want == {k \in 1..Len(q) : PLess(q[k].loc, H) /\ (e.lo.y # 0 => PLeq(P(e.lo), q[k].loc))}
             wq == SetToSortSeq(want, <)
         IN IF Len(e.o) # Len(wq) THEN Bad(st, "range-transitions", [k \in 1..Len(wq) |-> q[wq[k]]])
            ELSE IF \E k \in 1..Len(wq) : LET t == q[wq[k]] x == e.o[k] IN
                       ~(ToP(x[1]) = t.loc /\ ToP(x[2]) = t.utc /\ x[3] = <<t.from, t.to>> /\ (e.names = 1 => x[4] = t.name))
                 THEN Bad(st, "range-transition", [k \in 1..Len(wq) |-> q[wq[k]]])
            ELSE OK(st)
    [] e.op = "fromutc" ->      \* a UTC time into the zone, and back
         LET u == Q(e)
             i == At(q, u, TRUE)
             loc == Shift(u, q[i].to)
         IN IF i = 0 THEN OK(st)
            ELSE IF P(e.o) # loc \/ e.o.tz # "X/zone" THEN Bad(st, "utc-to-zone", [p |-> loc, t |-> q[i]])
            ELSE IF ~InFold(q, loc) /\ (P(e.back) # u \/ e.back.tz # "Z") THEN Bad(st, "utc-to-zone-and-back", u)
            ELSE OK(st)
    [] e.op = "fromlocal" ->    \* a local time to UTC, and back
         LET l == Q(e)
             i == At(q, l, FALSE)
             u == Shift(l, -q[i].to)
         IN IF i = 0 \/ InGap(q, l) THEN OK(st)
            ELSE IF InFold(q, l) THEN OK(st)
            ELSE IF P(e.o) # u \/ e.o.tz # "Z" THEN Bad(st, "zone-to-utc", [p |-> u, t |-> q[i]])
            ELSE IF P(e.back) # l \/ e.back.tz # "X/zone" THEN Bad(st, "zone-to-utc-and-back", l)
            ELSE OK(st)
=============================================================================
