------------------------------ MODULE P13Trace ------------------------------
(***************************************************************************)
(* The components stored in calendars and everything that can be looked up *)
(* about them.  State: for each calendar the sequence of its top-level     *)
(* components [tag, typ, uid, rid (day, -1: master), start (day), cnt      *)
(* (daily occurrences)], plus the pool of components taken out of          *)
(* calendars.  Every "look" compares all lookups with that store.          *)
(***************************************************************************)
EXTENDS Harness, FiniteSets
Init13(s) == [cals |-> <<<<>>>>, pool |-> <<>>]
Recurs == {"VEVENT", "VTODO", "VJOURNAL"}
Tags(q) == [i \in 1..Len(q) |-> q[i].tag]
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Range13(q) == {q[i] : i \in 1..Len(q)}
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range13(a) \cup Range13(b) : Count(a, x) = Count(b, x)
Sub(q, P(_)) == SelectSeq(q, P)
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Key(c) == <<c.uid, c.rid>>
\* the occurrences <<tag, day>> of the events in [lo, hi)
Occ(q, lo, hi) ==
  LET ev == {i \in 1..Len(q) : q[i].typ = "VEVENT"}
      over(u) == {q[i].rid : i \in {j \in ev : q[j].uid = u /\ q[j].rid >= 0}}
      one(i) == IF q[i].rid >= 0 THEN {<<i, q[i].start>>} ELSE {<<i, d>> : d \in (q[i].start..(q[i].start + q[i].cnt - 1)) \ (IF q[i].cnt > 1 THEN over(q[i].uid) ELSE {})}
  IN {x \in UNION {one(i) : i \in ev} : x[2] >= lo /\ x[2] < hi}
OccSame(q, lo, hi, items) ==
  LET w == Occ(q, lo, hi) IN
  /\ Len(items) = Cardinality(w)
  /\ \A k \in 1..Len(items) : Count(items, items[k]) = Cardinality({x \in w : q[x[1]].tag = items[k][1] /\ x[2] = items[k][2]})
Look(st, e) ==
  LET q == st.cals[e.cal]
      masters == Sub(q, LAMBDA c : c.typ \in Recurs /\ c.rid < 0)
      badtype == {k \in 1..Len(e.types) : ~SameBag(e.types[k].tags, Tags(Sub(q, LAMBDA c : c.typ = e.types[k].typ)))}
      badover == {k \in 1..Len(e.over) : ~SameBag(e.over[k].tags, Tags(Sub(q, LAMBDA c : c.typ = e.over[k].typ /\ c.uid = e.over[k].uid /\ c.rid >= 0)))}
      badids == {k \in 1..Len(e.over) : LET s == Sub(q, LAMBDA c : c.typ = e.over[k].typ /\ c.uid = e.over[k].uid /\ c.rid >= 0)
                                        IN ~SameBag(e.over[k].ids, [i \in 1..Len(s) |-> s[i].rid])}
      present(typ, uid) == {q[i].tag : i \in {j \in 1..Len(q) : q[j].typ = typ /\ q[j].uid = uid /\ q[j].rid < 0}}
      badmast == {k \in 1..Len(e.mast) : LET p == present(e.mast[k].typ, e.mast[k].uid) g == Range13(e.mast[k].tags)
                                         IN IF p = {} THEN g # {} ELSE g = {} \/ ~(g \subseteq p)}
      badkey == {k \in 1..Len(e.keys) : LET p == {q[i].tag : i \in {j \in 1..Len(q) : q[j].typ \in Recurs /\ Key(q[j]) = <<e.keys[k].uid, e.keys[k].rid>>}}
                                        IN IF p = {} THEN e.keys[k].tag # "" ELSE e.keys[k].tag \notin p}
  IN IF e.ok # 1 THEN BadStop(st, "lookup-error", "the lookups succeed")
     ELSE IF ~SameBag(e.all, Tags(q)) THEN BadStop(st, "stored", Tags(q))
     ELSE IF badtype # {} THEN Bad(st, "lookup-by-type", Tags(q))
     ELSE IF badover # {} THEN Bad(st, "lookup-overrides", {e.over[k] : k \in badover})
     ELSE IF badids # {} THEN Bad(st, "lookup-ids", {e.over[k] : k \in badids})
     ELSE IF badmast # {} THEN Bad(st, "lookup-master", {e.mast[k] : k \in badmast})
     ELSE IF (masters = <<>>) # (e.first = "") \/ (masters # <<>> /\ e.first \notin Range13(Tags(masters))) THEN Bad(st, "first-master", Tags(masters))
     ELSE IF badkey # {} THEN Bad(st, "lookup-by-key", {e.keys[k] : k \in badkey})
     ELSE IF ~SameBag(e.text, [i \in 1..Len(q) |-> <<q[i].typ, q[i].uid, q[i].rid, q[i].tag>>]) THEN Bad(st, "generated-text", q)
     ELSE IF ~OccSame(q, e.lo, e.hi, e.items) THEN Bad(st, "expansion", {<<q[x[1]].tag, x[2]>> : x \in Occ(q, e.lo, e.hi)})
     ELSE OK(st)
SetCal(st, k, q) == [st EXCEPT !.cals[k] = q]
IdxOf(q, tag) == CHOOSE i \in 1..Len(q) : q[i].tag = tag
Step13(st, e) ==
  IF e.op = "look" THEN Look(st, e)
  ELSE IF e.ok # 1 THEN BadStop(st, "edit-error", "the change succeeds")
  ELSE CASE e.op \in {"parse", "parseone", "add"} -> OK(SetCal(st, e.cal, st.cals[e.cal] \o e.comps))
         [] e.op = "remove" -> LET q == st.cals[e.cal] i == IdxOf(q, e.tag) IN OK([SetCal(st, e.cal, Without(q, i)) EXCEPT !.pool = Append(@, q[i])])
         [] e.op = "readd" -> LET i == IdxOf(st.pool, e.tag) IN OK([SetCal(st, e.cal, Append(st.cals[e.cal], [st.pool[i] EXCEPT !.uid = IF e.uid = "" THEN @ ELSE e.uid])) EXCEPT !.pool = Without(@, i)])
         [] e.op = "copyin" -> LET q == st.cals[e.src] c == q[IdxOf(q, e.tag)]
                               IN OK(SetCal(st, e.cal, Append(st.cals[e.cal], [c EXCEPT !.uid = IF e.uid = "" THEN @ ELSE e.uid])))
         [] e.op = "rmkey" -> LET q == st.cals[e.cal]
                                  c == {i \in 1..Len(q) : q[i].typ \in Recurs /\ Key(q[i]) = <<e.uid, e.rid>>}
                                  good == {i \in c : SameBag(e.left, Tags(Without(q, i)))}
                              IN IF c = {} THEN OK(st)
                                 ELSE IF good = {} THEN BadStop(st, "remove-by-key", Tags(q))
                                 ELSE OK(SetCal(st, e.cal, Without(q, CHOOSE i \in good : TRUE)))
         [] e.op = "cleartype" -> OK(SetCal(st, e.cal, Sub(st.cals[e.cal], LAMBDA c : c.typ # e.typ)))
         [] e.op = "clear" -> OK(SetCal(st, e.cal, <<>>))
         [] e.op = "rename" -> OK(SetCal(st, e.cal, [i \in 1..Len(st.cals[e.cal]) |-> IF st.cals[e.cal][i].uid = e.old
                                                                                    THEN [st.cals[e.cal][i] EXCEPT !.uid = e.new] ELSE st.cals[e.cal][i]]))
         [] e.op = "dup" -> OK([st EXCEPT !.cals = Append(@, st.cals[e.cal])])
         [] e.op = "newcal" -> OK([st EXCEPT !.cals = Append(@, <<>>)])
         [] OTHER -> OK(st)
=============================================================================
