------------------------------ MODULE ItemEdit ------------------------------
(***************************************************************************)
(* What an event, to-do or journal says about itself: status, time of      *)
(* completion, summary, description and location, and what editing does.   *)
(* A value that is absent is <<>>, one that is there <<v>>.                *)
(* Status numbers of the library: VEVENT 0 none 1 confirmed 2 tentative    *)
(* 3 cancelled; VTODO 0 none 1 needs action 2 in process 3 completed       *)
(* 4 cancelled.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences
Text(x) == IF x = <<>> THEN <<>> ELSE <<x>>          \* an empty text is no text
EditStatus(it, s, now) ==
  IF it.status = s THEN it
  ELSE [it EXCEPT !.status = s, !.n.STATUS = IF s = 0 THEN 0 ELSE 1,
                  !.done = IF it.kind = "VTODO" THEN (IF s = 3 THEN <<now>> ELSE <<>>) ELSE @,
                  !.n.COMPLETED = IF it.kind = "VTODO" THEN (IF s = 3 THEN 1 ELSE 0) ELSE @]
EditDone(it, t) == [it EXCEPT !.done = <<t>>, !.n.COMPLETED = 1]
EditSummary(it, x) == [it EXCEPT !.sum = Text(x), !.n.SUMMARY = Len(Text(x))]
EditDetails(it, x, y) == [it EXCEPT !.desc = Text(x), !.loc = Text(y), !.n.DESCRIPTION = Len(Text(x)), !.n.LOCATION = Len(Text(y))]
\* completion state of a to-do: 0 overdue 1 due now 2 due later 3 done 4 cancelled; due: <<>> or <<day>>
Completion(it, due, today) ==
  CASE it.status = 3 -> 3 [] it.status = 4 -> 4
    [] due = <<>> -> 1
    [] OTHER -> IF due[1] < today THEN 0 ELSE IF due[1] = today THEN 1 ELSE 2
Head30(it, due, today) ==
  CASE it.status = 4 -> "Cancelled" [] it.status = 3 -> "Completed"
    [] due = <<>> -> "Not Completed"
    [] OTHER -> IF due[1] < today THEN "Overdue" ELSE IF due[1] = today THEN "Due today" ELSE "Due"
\* --- display order of two to-dos a, b with start, due (<<>> or a time [day, sec, do]), done, priority
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Cmp(x, y) == IF x.day # y.day THEN Sgn(x.day - y.day) ELSE IF x.do = 1 \/ y.do = 1 THEN 0 ELSE Sgn(x.sec - y.sec)
Rank(s) == IF s = 0 THEN 1 ELSE s
Order(a, b, today) ==
  IF Rank(a.status) # Rank(b.status) THEN Sgn(Rank(a.status) - Rank(b.status))
  ELSE IF a.status = 4 THEN Cmp(b.start, a.start)
  ELSE IF a.status = 3 THEN Cmp(b.done[1], a.done[1])
  ELSE IF (a.due = <<>>) # (b.due = <<>>)
       THEN IF b.due = <<>> THEN (IF a.due[1].day <= today THEN -1 ELSE 1) ELSE (IF b.due[1].day <= today THEN 1 ELSE -1)
  ELSE IF a.due # <<>> /\ Cmp(a.due[1], b.due[1]) # 0 THEN Cmp(a.due[1], b.due[1])
  ELSE IF a.prio # b.prio THEN Sgn(a.prio - b.prio)
  ELSE Cmp(a.start, b.start)
=============================================================================
