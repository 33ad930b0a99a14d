------------------------------ MODULE P24Trace ------------------------------
(***************************************************************************)
(* Free-busy queries on the real code against BusyTime.                    *)
(***************************************************************************)
EXTENDS Harness, BusyTime
Init24(s) == [evs |-> s.init.evs, fbs |-> s.init.fbs]
Set(q) == {q[i] : i \in DOMAIN q}
All(st) == OfEvents(st.evs) \cup UNION {OfComp(st.fbs[i]) : i \in DOMAIN st.fbs}
InRange(Items, a, b) == {<<i[1], IF i[2] < a THEN a ELSE i[2], IF i[3] > b THEN b ELSE i[3]>> : i \in {j \in Items : j[2] < b /\ a < j[3]}}
Judge(st, e, Items) == IF e.ok # 1 THEN BadStop(st, "error", InRange(Items, e.a, e.b))
                       ELSE Check(st, Same(Items, Set(e.res), e.a, e.b), "busy-time", InRange(Items, e.a, e.b))
Step24(st, e) ==
  CASE e.op = "query" -> LET r == Judge(st, e, All(st)) IN
                         IF r.bad # "" THEN r ELSE Check(st, Apart(e.res), "overlaps", "every time at most once")
    [] e.op = "vfb" -> LET r == Judge(st, e, OfEvents(st.evs)) IN
                       IF r.bad # "" THEN r ELSE Check(st, Apart(e.res), "overlaps", "every time at most once")
    [] e.op = "comp" -> Judge(st, e, OfComp(st.fbs[e.i]))
    [] e.op = "list" -> LET W == {i \in DOMAIN st.fbs : Touches(st.fbs[i], e.a, e.b)} IN
                        IF e.ok # 1 THEN BadStop(st, "error", W) ELSE Check(st, Set(e.res) = W /\ Len(e.res) = Cardinality(W), "components", W)
    [] e.op = "change" -> LET n == [st EXCEPT !.fbs[e.i].items = e.items] IN IF e.ok # 1 THEN BadStop(n, "error", "changed") ELSE OK(n)
    [] OTHER -> OK(st)
=============================================================================
