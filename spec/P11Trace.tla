------------------------------ MODULE P11Trace ------------------------------
(***************************************************************************)
(* Expanding the events of a calendar.  The state is the sequence of       *)
(* components stored; a query lists, for a range, every occurrence that    *)
(* overlaps it: plain events, instances of recurring masters that are not  *)
(* excluded or overridden, and the overrides.  Instants are seconds        *)
(* relative to the day d0.                                                 *)
(***************************************************************************)
EXTENDS RecurSet
InitSt_(s) == [comps |-> <<>>, d0 |-> DN(s.init.base)]
Abs(it, d0) == ItemV(it, d0) - it[7]
\* the set of start instants of master c whose start or RDATE period reaches a range [lo, hi)
WithCut(c) == [start |-> c.start, rules |-> c.rules, exrules |-> c.exrules, rdates |-> c.rdates, exdates |-> c.exdates, rpers |-> c.rpers, expers |-> c.expers, cut |-> <<>>]
Back(t, n) == Norm([t EXCEPT !.s = @ - n])
DayIx(v) == v \div 86400
Overlap(s, e, L, H) == s < H /\ (s >= L \/ e > L)
\* <<start, end>> pairs
EndsOf(c, v, d0) == LET ps == {i \in 1..Len(c.rpers) : Ins(c.rpers[i].s, d0) = v}
                    IN IF v = Ins(c.start, d0) \/ ps = {} THEN {v + c.len} ELSE {Ins(c.rpers[i].e, d0) : i \in ps}
Rids(st, uid) == {Ins(st.comps[i].rid, st.d0) : i \in {j \in 1..Len(st.comps) : st.comps[j].kind = "over" /\ st.comps[j].uid = uid}}
Futures(st, uid) == {i \in 1..Len(st.comps) : st.comps[i].kind = "over" /\ st.comps[i].uid = uid /\ st.comps[i].future = 1}
\* the THISANDFUTURE override governing instant v, 0 if none
Governs(st, uid, v) == LET c == {i \in Futures(st, uid) : Ins(st.comps[i].rid, st.d0) < v}
                       IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : Ins(st.comps[i].rid, st.d0) >= Ins(st.comps[j].rid, st.d0)
MasterItems(st, c, lo, hi) ==
  LET d0 == st.d0
      L == Ins(lo, d0)
      H == Ins(hi, d0)
      ws == WithCut(c)
      dm == DN(c.start)
      hiL == [Back(hi, hi.off - c.start.off) EXCEPT !.off = c.start.off]        \* in the zone of the start
      starts == {v + (dm - d0) * 86400 : v \in Included(ws, Back(lo, c.len), hiL, dm) \ Excluded(ws, hiL, dm, TRUE)} \ Rids(st, c.uid)
  IN UNION {LET g == Governs(st, c.uid, v)
            IN IF g = 0 THEN {<<c.id, v, e, 1>> : e \in {x \in EndsOf(c, v, d0) : Overlap(v, x, L, H)}}
               ELSE LET o == st.comps[g]
                        s2 == v + Ins(o.start, d0) - Ins(o.rid, d0)
                    IN IF Overlap(s2, s2 + o.len, L, H) THEN {<<o.id, s2, s2 + o.len, 1>>} ELSE {}
            : v \in starts}
Items(st, lo, hi) ==
  LET L == Ins(lo, st.d0)
      H == Ins(hi, st.d0)
      One(c) == IF c.kind = "master" THEN MasterItems(st, c, lo, hi)
                ELSE IF c.kind = "other" THEN {}
                ELSE LET s == Ins(c.start, st.d0)
                     IN IF Overlap(s, s + c.len, L, H) THEN {<<c.id, s, s + c.len, IF c.kind = "over" THEN 1 ELSE 0>>} ELSE {}
  IN UNION {One(st.comps[i]) : i \in 1..Len(st.comps)}
CompOf(st, id) == CHOOSE i \in 1..Len(st.comps) : st.comps[i].id = id
\* the order required of neighbours
Precedes(st, top, a, b, x, y) ==
  IF top = 1
  THEN \/ x.start.do = 1 /\ y.start.do = 0
       \/ x.start.do = y.start.do /\ \/ a[2] < b[2]
                                     \/ a[2] = b[2] /\ (x.start.do = 1 \/ a[3] > b[3] \/ (a[3] = b[3] /\ x.stamp <= y.stamp))
  ELSE \/ DayIx(a[2]) < DayIx(b[2])
       \/ DayIx(a[2]) = DayIx(b[2]) /\ \/ x.start.do = 1
                                       \/ y.start.do = 0 /\ a[2] <= b[2]
QueryStep(st, e) ==
  LET d0 == st.d0
      want == Items(st, e.lo, e.hi)
      opt == {x \in want : st.comps[CompOf(st, x[1])].kind # "master" /\ x[2] = x[3] /\ x[2] = Ins(e.lo, d0)}     \* no length, at the very start of the range: not judged
      got == [i \in 1..Len(e.items) |-> <<e.items[i].id, Abs(e.items[i].s, d0), Abs(e.items[i].e, d0), e.items[i].rec>>]
      gset == {got[i] : i \in 1..Len(got)}
  IN IF e.ok # 1 THEN BadStop(st, "expand-error", "the expansion succeeds")
     ELSE IF Cardinality(gset) # Len(got) THEN Bad(st, "repeated-occurrence", want)
     ELSE IF ~((want \ opt) \subseteq gset) THEN Bad(st, "missing-occurrence", want \ gset)
     ELSE IF ~(gset \subseteq want) THEN Bad(st, "extra-occurrence", gset \ want)
     ELSE IF \E i \in 1..Len(got)-1 : ~Precedes(st, e.top, got[i], got[i+1], st.comps[CompOf(st, got[i][1])], st.comps[CompOf(st, got[i+1][1])])
          THEN Bad(st, "order", got)
     ELSE IF \E i \in 1..Len(got) : e.items[i].kind # 1 THEN Bad(st, "instance-kind", "the zone and value type of its event")
     ELSE OK(st)
Drop(st, ids) == SelectSeq(st.comps, LAMBDA c : c.id \notin ids)
Step_(st, e) ==
  CASE e.op = "query" -> QueryStep(st, e)
    [] e.op = "load" -> IF e.ok # 1 THEN BadStop(st, "load-error", "the components load") ELSE OK([st EXCEPT !.comps = @ \o e.comps])
    [] e.op = "remove" -> IF e.ok # 1 THEN BadStop(st, "remove-error", "the component is removed") ELSE OK([st EXCEPT !.comps = Drop(st, {e.rid})])
    [] e.op = "dup" -> IF e.ok # 1 THEN BadStop(st, "dup-error", "the calendar is copied") ELSE OK(st)
    [] OTHER -> OK(st)
=============================================================================
