------------------------------ MODULE P30Trace ------------------------------
(***************************************************************************)
(* Edits of status, completion and descriptive texts on the real code.     *)
(* Times are seconds (days) since 2020-01-01T00:00:00Z.                    *)
(***************************************************************************)
EXTENDS Harness, ItemEdit
Today(st) == st.now \div 86400
Shows(st, v) ==
  /\ Len(v.items) = Len(st.items)
  /\ \A i \in DOMAIN st.items : LET a == st.items[i] b == v.items[i] IN
       /\ b.status = a.status /\ b.done = a.done /\ b.sum = a.sum /\ b.desc = a.desc /\ b.loc = a.loc
  /\ v.name = st.cal.name /\ v.cdesc = st.cal.cdesc
Counts(st, v) ==
  /\ \A i \in DOMAIN st.items : v.items[i].n = st.items[i].n
  /\ v.nname = st.cal.nname /\ v.ncdesc = st.cal.ncdesc
Seen(st, e) == IF e.ok # 1 THEN BadStop(st, "error", "answered")
               ELSE IF ~Shows(st, e.view) THEN BadStop(st, "shown", <<st.items, st.cal>>)
               ELSE IF ~Shows(st, e.again) THEN BadStop(st, "after-reading", <<st.items, st.cal>>)
               ELSE IF ~Counts(st, e.view) THEN BadStop(st, "written-once", <<st.items, st.cal>>)
               ELSE Check(st, e.same = 1, "others-changed", "the same")
With(st, e, it) == Seen([st EXCEPT !.items[e.i] = it], e)
Due(it) == IF it.due = <<>> THEN <<>> ELSE <<it.due[1].day>>
Init30(s) == [items |-> s.init.items, cal |-> s.init.cal, now |-> s.init.now]
Step30(st, e) ==
  CASE e.op = "pass" -> OK([st EXCEPT !.now = @ + e.k])
    [] e.op = "status" -> With(st, e, EditStatus(st.items[e.i], e.status, st.now))
    [] e.op = "done" -> With(st, e, EditDone(st.items[e.i], e.at))
    [] e.op = "summary" -> With(st, e, EditSummary(st.items[e.i], e.x))
    [] e.op = "details" -> With(st, e, EditDetails(st.items[e.i], e.x, e.y))
    [] e.op = "name" -> Seen(IF st.cal.name = Text(e.x) THEN st ELSE [st EXCEPT !.cal.name = Text(e.x), !.cal.nname = Len(Text(e.x))], e)
    [] e.op = "cdesc" -> Seen(IF st.cal.cdesc = Text(e.x) THEN st ELSE [st EXCEPT !.cal.cdesc = Text(e.x), !.cal.ncdesc = Len(Text(e.x))], e)
    [] e.op \in {"load", "text", "json", "dup"} -> Seen(st, e)
    [] e.op = "state" ->
         LET t == {i \in DOMAIN st.items : st.items[i].kind = "VTODO"} IN
         IF e.ok # 1 THEN BadStop(st, "error", "answered")
         ELSE IF \E i \in t : e.state[i] # Completion(st.items[i], Due(st.items[i]), Today(st))
              THEN Bad(st, "completion-state", [i \in t |-> Completion(st.items[i], Due(st.items[i]), Today(st))])
         ELSE IF \E i \in t : e.head[i] # Head30(st.items[i], Due(st.items[i]), Today(st))
              THEN Bad(st, "status-text", [i \in t |-> Head30(st.items[i], Due(st.items[i]), Today(st))])
         ELSE Check(st, \A i \in t : st.items[i].status = 3 /\ st.items[i].done # <<>> => e.day[i] = st.items[i].done[1] \div 86400,
                    "status-text", [i \in t |-> st.items[i].done])
    [] e.op = "order" ->
         LET t == {i \in DOMAIN st.items : st.items[i].kind = "VTODO" /\ ~(st.items[i].status = 3 /\ st.items[i].done = <<>>)}
             tm(x) == [day |-> x \div 86400, sec |-> x % 86400, do |-> 0]
             as(i) == [st.items[i] EXCEPT !.done = IF @ = <<>> THEN <<>> ELSE <<tm(@[1])>>] IN
         IF e.ok # 1 THEN BadStop(st, "error", "answered")
         ELSE Check(st, \A i, j \in t : e.order[i][j] = Order(as(i), as(j), Today(st)), "display-order",
                    [i \in t |-> [j \in t |-> Order(as(i), as(j), Today(st))]])
    [] OTHER -> OK(st)
=============================================================================
