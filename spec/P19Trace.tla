------------------------------ MODULE P19Trace ------------------------------
(***************************************************************************)
(* Reading a calendar: the octets are unfolded and classified into lines   *)
(* by the grammar (ICalText), and the pushdown reader (Nest) gives the     *)
(* outcome and the tree.  State: the components held by the calendar that  *)
(* single components are read into.                                        *)
(***************************************************************************)
EXTENDS Harness, CalTree
Init19(s) == [held |-> <<>>]
\* the machine, with the restriction on what holds what
RECURSIVE Types(_)
Types(n) == {n.t} \cup UNION {Types(n.cs[i]) : i \in 1..Len(n.cs)}
\* the recorded tree: props are given by name with the values in order
RECURSIVE Same(_, _)
Same(n, g) == /\ n.t = g.t /\ Len(n.cs) = Len(g.cs)
              /\ PNames(n.ps) = {g.ps[i].n : i \in 1..Len(g.ps)} /\ Len(g.ps) = Cardinality(PNames(n.ps))
              /\ \A i \in 1..Len(g.ps) : Named(n.ps, g.ps[i].n) = g.ps[i].v
              /\ \A i \in 1..Len(n.cs) : Same(n.cs[i], g.cs[i])
Family == {"EXC:InvalidData", "EXC:InvalidProperty", "EXC:InvalidComponent"}
VersionOK(n) == LET v == Named(n.ps, T_VERSION) IN Len(v) > 0 /\ \A i \in 1..Len(v) : v[i] = <<50, 46, 48>>
NoCal(ls) == \A i \in 1..Len(ls) : ls[i].k = "blank"
Refused(st, e, why) == IF e.ok = 1 /\ e.none = 0 THEN Bad(st, "accepted", why) ELSE IF e.ok = 1 THEN OK(st) ELSE Check(st, e.exc \in Family, "error-kind", "an invalid-data error")
PParse(st, e) == LET ls == Lines(e.data)
                     m == Read(ls, e.strict = 1)
                 IN IF m.res = "free" THEN Check(st, e.ok = 1 \/ e.exc \in Family, "error-kind", "an invalid-data error")
                    ELSE IF NoCal(ls) THEN Check(st, e.none = 1 \/ e.exc \in Family, "no-calendar", "none")
                    ELSE IF m.res = "fail" THEN Refused(st, e, "not well nested")
                    ELSE IF ~VersionOK(m.root[1]) THEN Refused(st, e, "VERSION")
                    ELSE IF ~WellHeld(m.root[1]) THEN Refused(st, e, "a component that does not belong there")
                    ELSE IF e.ok = 0 \/ e.none = 1 THEN Bad(st, "refused", m.root[1])
                    ELSE Check(st, Same(m.root[1], e.got), "tree", m.root[1])
\* --- the first calendar object's components are added to a calendar; what follows it is not read
RECURSIVE Upto(_, _, _, _)
Upto(ls, i, m, strict) == IF m.res # "run" \/ m.root # <<>> \/ i > Len(ls) THEN m ELSE Upto(ls, i + 1, NStep(m, ls[i], T_VCALENDAR, strict), strict)
\* properties of the calendar object itself are not looked at
Top19(ls, i) == \* is line i at the calendar's own level
  LET b == {j \in 1..(i - 1) : ls[j].k = "begin"} d == {j \in 1..(i - 1) : ls[j].k = "end"} IN Cardinality(b) = 1 + Cardinality(d)
Soften(ls) == [i \in 1..Len(ls) |-> IF ls[i].k = "junk" /\ Top19(ls, i) THEN [k |-> "prop", n |-> <<>>, v |-> <<>>, ps |-> <<>>, raw |-> <<>>] ELSE ls[i]]
POne(st, e) == LET ls == Soften(Lines(e.data))
                   m == Upto(ls, 1, NStart, e.strict = 1)
                   kept == [j \in 1..Len(e.held) |-> j]
                   Kept(q) == Len(e.held) = Len(q) /\ \A j \in 1..Len(q) : Same(q[j], e.held[j])
               IN IF m.res # "run" \/ m.root = <<>> THEN
                     IF NoCal(ls) THEN Check(st, (e.none = 1 \/ e.exc \in Family) /\ Kept(st.held), "no-calendar", "none")
                     ELSE IF e.ok = 1 THEN Bad(st, "accepted", "not well nested")
                     ELSE IF e.exc \notin Family THEN Bad(st, "error-kind", "an invalid-data error")
                     ELSE Check(st, Kept(st.held), "partial-result", st.held)
                  ELSE IF ~WellHeld(m.root[1]) THEN
                     IF e.ok = 1 THEN Bad(st, "accepted", "a component that does not belong there")
                     ELSE IF e.exc \notin Family THEN Bad(st, "error-kind", "an invalid-data error")
                     ELSE Check(st, Kept(st.held), "partial-result", st.held)
                  ELSE IF e.ok = 0 THEN Bad(st, "refused", m.root[1])
                  ELSE LET nh == st.held \o m.root[1].cs IN
                       IF m.root[1].cs = <<>> THEN Check(st, e.none = 1 /\ Kept(nh), "no-component", "none")
                       ELSE IF e.none = 1 THEN Bad(st, "no-result", m.root[1].cs[1])
                       ELSE IF ~Same(m.root[1].cs[1], e.first) THEN Bad(st, "first-component", m.root[1].cs[1])
                       ELSE Check([st EXCEPT !.held = nh], Kept(nh), "tree", nh)
\* any damage to any value: an error must be an invalid-data error
PFuzz(st, e) == Check(st, e.ok = 1 \/ e.exc \in Family, "error-kind", "an invalid-data error")
Step19(st, e) ==
  CASE e.op = "parse" -> PParse(st, e) [] e.op = "one" -> POne(st, e) [] e.op = "fuzz" -> PFuzz(st, e) [] OTHER -> OK(st)
=============================================================================
