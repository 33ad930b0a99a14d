------------------------------ MODULE AlarmClock ------------------------------
(***************************************************************************)
(* Alarms in time.  An alarm rings first at its trigger (absolute, or the  *)
(* start or end of its component plus an offset) and then repeatedly at    *)
(* its interval.  Asked for the next trigger, it answers the occurrence    *)
(* that is due: the latest that is not in the future, unless it has rung   *)
(* already or is more than a day old, when it is the one after, and if     *)
(* there is none the alarm is completed.                                   *)
(*                                                                         *)
(* st = [first, rep, int, last, status, known, next, done]                 *)
(* last = the occurrence that rang last (None: none); known: whether the   *)
(* next occurrence has been worked out since the last change; done: how    *)
(* many repeats lie before it.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
None == -2147483647
DayS == 86400
Occ(st, k) == st.first + k * st.int
\* how many repeats lie before the due occurrence
Due(st, now) ==
  IF now < st.first + st.int \/ st.rep = 0 THEN 0
  ELSE IF st.int <= 0 THEN st.rep
  ELSE LET n == (now - st.first) \div st.int IN IF n < st.rep THEN n ELSE st.rep
\* working out the next trigger
Find(st, now) ==
  IF st.status = "completed" \/ st.known THEN st
  ELSE LET k == Due(st, now)
           t == Occ(st, k)
           over == t = st.last \/ now - t > DayS
       IN IF over /\ k = st.rep THEN [st EXCEPT !.status = "completed", !.done = k, !.known = TRUE]
          ELSE IF over THEN [st EXCEPT !.known = TRUE, !.done = k + 1, !.next = Occ(st, k + 1)]
          ELSE [st EXCEPT !.known = TRUE, !.done = k, !.next = t]
\* the occurrence that was due has rung
Ring(st) ==
  IF st.done < st.rep THEN [st EXCEPT !.last = st.next, !.next = st.next + st.int, !.done = @ + 1, !.status = "pending"]
  ELSE [st EXCEPT !.last = st.next, !.status = "completed"]
\* a change: the next trigger is worked out anew
Changed(st) == [st EXCEPT !.known = FALSE]
New(first, rep, int) == [first |-> first, rep |-> rep, int |-> int, last |-> None, status |-> "pending", known |-> FALSE, next |-> None, done |-> 0]
=============================================================================
