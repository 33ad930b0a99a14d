------------------------------- MODULE CalTree -------------------------------
(* Calendar text as a tree: content lines (ICalText) read by the pushdown machine (Nest).  A property keeps its parameters: [n, v, ps]. *)
EXTENDS ICalText, Nest
T_VCALENDAR == <<86,67,65,76,69,78,68,65,82>>
T_VEVENT == <<86,69,86,69,78,84>>
T_VTODO == <<86,84,79,68,79>>
T_VALARM == <<86,65,76,65,82,77>>
T_VAVAILABILITY == <<86,65,86,65,73,76,65,66,73,76,73,84,89>>
T_AVAILABLE == <<65,86,65,73,76,65,66,76,69>>
T_VVOTER == <<86,86,79,84,69,82>>
T_VOTE == <<86,79,84,69>>
T_VTIMEZONE == <<86,84,73,77,69,90,79,78,69>>
T_STANDARD == <<83,84,65,78,68,65,82,68>>
T_DAYLIGHT == <<68,65,89,76,73,71,72,84>>
T_VJOURNAL == <<86,74,79,85,82,78,65,76>>
T_VFREEBUSY == <<86,70,82,69,69,66,85,83,89>>
T_VPOLL == <<86,80,79,76,76>>
T_VERSION == <<86,69,82,83,73,79,78>>
BEGINC == <<66,69,71,73,78,58>>
ENDC == <<69,78,68,58>>
Bare(c) == [k |-> c]
Class(l) == IF l = <<>> THEN Bare("blank")
            ELSE IF Starts(l, BEGINC) THEN [k |-> "begin", t |-> FromI(l, 7)]
            ELSE IF Starts(l, ENDC) THEN [k |-> "end", t |-> FromI(l, 5)]
            ELSE LET r == Lex(l) IN IF r.ok THEN [k |-> "prop", n |-> Up(r.name), v |-> r.val, ps |-> r.pars, raw |-> r.name] ELSE Bare("junk")
\* components that a component may hold, where that is restricted
Holds(t, c) == CASE t \in {T_VEVENT, T_VTODO} -> c = T_VALARM [] t = T_VAVAILABILITY -> c = T_AVAILABLE [] t = T_VVOTER -> c = T_VOTE
                 [] t = T_VTIMEZONE -> c \in {T_STANDARD, T_DAYLIGHT} [] OTHER -> TRUE
RECURSIVE WellHeld(_)
WellHeld(n) == \A i \in 1..Len(n.cs) : Holds(n.t, n.cs[i].t) /\ WellHeld(n.cs[i])
Read(ls, strict) == NEnd(FoldLeft(LAMBDA m, l : NStep(m, l, T_VCALENDAR, strict), NStart, ls))
Lines(data) == LET q == Unfold(data) IN [i \in 1..Len(q) |-> Class(q[i])]
Named(ps, nm) == LET q == SelectSeq(ps, LAMBDA p : p.n = nm) IN [i \in 1..Len(q) |-> q[i].v]
PNames(ps) == {ps[i].n : i \in 1..Len(ps)}
=============================================================================
