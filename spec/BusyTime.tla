------------------------------- MODULE BusyTime -------------------------------
(***************************************************************************)
(* Busy time.  An item is <<type, start, end>> (1 tentative, 2 unavailable, *)
(* 3 busy; times are minutes, the end excluded).  At any time the          *)
(* strongest type of the items there applies.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
\* the type that applies at t
At(Items, t) == MaxOf({i[1] : i \in {j \in Items : j[2] <= t /\ t < j[3]}})
\* two sets of items stand for the same busy time in [a, b), and nothing outside
Points(Items) == {i[2] : i \in Items} \cup {i[3] : i \in Items}
Same(Items, Res, a, b) == \A t \in Points(Items) \cup Points(Res) \cup {a} : At(Res, t) = IF a <= t /\ t < b THEN At(Items, t) ELSE 0
\* no time is covered twice, nothing is empty
Apart(q) ==
  /\ \A i \in DOMAIN q : q[i][2] < q[i][3]
  /\ \A i, j \in DOMAIN q : i # j => q[i][3] <= q[j][2] \/ q[j][3] <= q[i][2]
\* what a calendar's events and free-busy components contribute
\* ev = [start, len, every, count, ex, over, type]: instance k starts at start + k * every unless k is in ex;
\* over = <<k, start, len, type>> replaces instance k
Instances(ev) == {<<ev.type, ev.start + k * ev.every, ev.start + k * ev.every + ev.len>> :
                   k \in {n \in 0..(ev.count - 1) : (\A i \in DOMAIN ev.ex : ev.ex[i] # n) /\ (\A i \in DOMAIN ev.over : ev.over[i][1] # n)}}
                 \cup {<<ev.over[i][4], ev.over[i][2], ev.over[i][2] + ev.over[i][3]>> : i \in DOMAIN ev.over}
Busy(Items) == {i \in Items : i[1] > 0}
OfEvents(evs) == Busy(UNION {Instances(evs[i]) : i \in DOMAIN evs})
OfComp(fb) == Busy({fb.items[i] : i \in DOMAIN fb.items})
\* a component is of interest for [a, b) when it has busy time and the time it spans overlaps it
Span(fb) == IF fb.span # <<>> THEN fb.span
            ELSE LET P == Points(OfComp(fb)) IN <<CHOOSE x \in P : \A y \in P : x <= y, MaxOf(P)>>
Touches(fb, a, b) == OfComp(fb) # {} /\ Span(fb)[1] < b /\ a < Span(fb)[2]
=============================================================================
