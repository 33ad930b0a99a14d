------------------------------ MODULE P14Trace ------------------------------
(***************************************************************************)
(* Deriving one occurrence of a recurring component.  State: the master    *)
(* (start, how its end is given, length, its other lines).  Deriving for a *)
(* recurrence id gives the master moved to that occurrence.  The zone "E"  *)
(* is a zone with daylight time in 2020, "O<n>" are fixed offsets.         *)
(***************************************************************************)
EXTENDS Harness, Civil, FiniteSets
Init14(s) == [comps |-> s.init.comps, d0 |-> DayNum(2020, 1, 1)]
\* offset of zone tz, given by its name and fixed offset, at instant v (seconds since d0)
Spring == 67 * 86400 + 7 * 3600       \* 2020-03-08 02:00 EST
Autumn == 305 * 86400 + 6 * 3600      \* 2020-11-01 02:00 EDT
OffAt(tz, fix, v) == IF tz = "E" THEN (IF v < Spring \/ v >= Autumn THEN -18000 ELSE -14400) ELSE fix
Wall(x, d0) == (DN(x) - d0) * 86400 + SecOfDay(x)
\* local times near transitions are not used
Inst(x, d0) == LET w == Wall(x, d0) IN IF x.tz = "E" THEN w - (IF w < Spring - 7200 \/ w >= Autumn - 14400 THEN -18000 ELSE -14400) ELSE w - x.fix
Fields(x) == <<x.y, x.m, x.d, IF x.do = 1 THEN 0 ELSE x.h, IF x.do = 1 THEN 0 ELSE x.n, IF x.do = 1 THEN 0 ELSE x.s, x.do>>
\* the fields of instant v in the zone of x
Local(v, x, d0) == LET w == v + OffAt(x.tz, x.fix, v)
                       c == Civ(d0 + (w \div 86400))
                       t == w % 86400
                   IN <<c.y, c.m, c.d, IF x.do = 1 THEN 0 ELSE t \div 3600, IF x.do = 1 THEN 0 ELSE (t \div 60) % 60, IF x.do = 1 THEN 0 ELSE t % 60, x.do>>
IsMaster(c) == c.typ \in {"VEVENT", "VTODO", "VJOURNAL"} /\ c.rid = 0
MasterIx(q) == LET s == {i \in 1..Len(q) : IsMaster(q[i])} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
Set(q) == {q[i] : i \in 1..Len(q)}
Bag(q) == [x \in Set(q) |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
Derive(st, e) ==
  LET k == MasterIx(st.comps)
      m == st.comps[k]
      v == Inst(e.rid, st.d0)
      ws == Local(v, m.start, st.d0)
      g == e.got
  IN IF e.ok # 1 THEN BadStop(st, "derive-error", "an occurrence")
     ELSE IF k = 0 THEN Check(st, g.null = 1, "no-master", "nothing")
     ELSE IF g.null = 1 THEN Bad(st, "nothing-derived", ws)
     ELSE IF g.typ # m.typ THEN Bad(st, "component-type", m.typ)
     ELSE IF Fields(g.start) # ws \/ g.start.tz # m.start.tz THEN Bad(st, "start", <<ws, m.start.tz>>)
     ELSE IF Fields(g.prid) # ws \/ g.prid.tz # m.start.tz \/ g.isover # 1 THEN Bad(st, "recurrence-id", <<ws, m.start.tz>>)
     ELSE IF g.endform # m.endform THEN Bad(st, "end-form", m.endform)
     ELSE IF g.hasend = 1 /\ Inst(g.end, st.d0) # v + m.len THEN Bad(st, "end", v + m.len)
     ELSE IF g.hasend = 1 /\ g.end.do # m.start.do THEN Bad(st, "end-kind", m.start.do)
     ELSE IF m.endform = "end" /\ Inst(g.pend, st.d0) # v + m.len THEN Bad(st, "end-property", v + m.len)
     ELSE IF g.recurring # 0 THEN Bad(st, "recurrence-left", "no recurrence")
     ELSE IF Bag(g.lines) # Bag(m.lines) THEN Bad(st, "other-properties", m.lines)
     ELSE IF g.same # 1 THEN Bad(st, "calendar-changed", "the calendar is as before")
     ELSE IF g.reread # 1 THEN Bad(st, "reread", "the written component reads back the same")
     ELSE OK(st)
Step14(st, e) ==
  CASE e.op = "derive" -> Derive(st, e)
    [] e.op = "addin" -> IF e.ok # 1 THEN BadStop(st, "add-error", "the occurrence is added")
                         ELSE IF Set(e.before) # Set(e.after) \/ Len(e.before) # Len(e.after) THEN BadStop(st, "occurrences-changed", e.before)
                         ELSE OK([st EXCEPT !.comps = Append(@, [(st.comps[MasterIx(st.comps)]) EXCEPT !.rid = 1])])
    [] e.op = "shift" -> IF e.ok # 1 THEN BadStop(st, "shift-error", "the start is changed") ELSE Check(st, e.rid1 = e.rid2, "shared-value", e.rid1)
    [] e.op = "dup" -> Check(st, e.ok = 1, "dup-error", "the calendar is copied")
    [] e.op = "expand" -> Check(st, e.ok = 1, "expand-error", "the expansion succeeds")
    [] e.op = "rename" -> IF e.ok # 1 THEN BadStop(st, "rename-error", "the uid is changed")
                          ELSE OK([st EXCEPT !.comps = [i \in 1..Len(@) |-> IF IsMaster(@[i]) \/ @[i].rid = 1 THEN [@[i] EXCEPT !.lines = [j \in 1..Len(@) |-> IF @[j] = e.old THEN e.new ELSE @[j]]] ELSE @[i]]])
    [] OTHER -> OK(st)
=============================================================================
