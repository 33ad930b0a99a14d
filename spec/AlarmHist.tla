------------------------------ MODULE AlarmHist ------------------------------
(***************************************************************************)
(* An alarm that is polled: time passes, it is asked for its next trigger  *)
(* and rings when that has come, it is written and read again at any       *)
(* point, and edited.  Also generates the histories replayed on the code.  *)
(***************************************************************************)
EXTENDS AlarmClock, TLC, Json, IOUtils, CSV
CONSTANTS Depth, Ticks, Reps, Ints, Edits, Emit
VARIABLES al, now, rung, hist
vars == <<al, now, rung, hist>>
Init == /\ \E f \in Ticks, r \in Reps, i \in Ints : al = New(f, r, i)
        /\ now = 0 /\ rung = <<>> /\ hist = <<>>
Log(o, k) == hist' = Append(hist, [op |-> o, k |-> k])
More == Len(hist) < Depth
Pass(d) == More /\ now' = now + d /\ Log("pass", d) /\ UNCHANGED <<al, rung>>
Ask == More /\ al' = Find(al, now) /\ Log("next", 0) /\ UNCHANGED <<now, rung>>
Fire == LET a == Find(al, now) IN
        /\ More /\ a.status # "completed" /\ a.next <= now
        /\ al' = Ring(a) /\ rung' = Append(rung, a.next) /\ Log("fire", 0) /\ UNCHANGED now
\* writing and reading keeps everything but what was worked out
Again == More /\ al' = [Changed(al) EXCEPT !.done = 0, !.next = None] /\ Log("again", 0) /\ UNCHANGED <<now, rung>>
Edit(e) == More /\ e \in Edits /\ Log(e, 0) /\ UNCHANGED <<now, rung>>
           /\ CASE e = "trigger" -> \E f \in Ticks : al' = Changed([al EXCEPT !.first = f])
                [] e = "repeats" -> \E r \in Reps, i \in Ints : al' = Changed([al EXCEPT !.rep = r, !.int = i])
                [] e = "status" -> \E s \in {"pending", "completed"} : al' = Changed([al EXCEPT !.status = s])
                [] OTHER -> UNCHANGED al
Out == /\ Len(hist) = Depth /\ Emit
       /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
       /\ hist' = Append(hist, [op |-> "end", k |-> 0]) /\ UNCHANGED <<al, now, rung>>
Next == (\E d \in Ticks : Pass(d)) \/ Ask \/ Fire \/ Again \/ (\E e \in Edits : Edit(e)) \/ Out
Spec == Init /\ [][Next]_vars
View == <<al, now, rung, Len(hist)>>
\* without edits every occurrence rings at most once, in order, when it has come
Plain == Edits = {}
Rings == Plain => /\ \A i \in DOMAIN rung : \E k \in 0..al.rep : rung[i] = Occ(al, k) /\ rung[i] <= now
                  /\ \A i, j \in DOMAIN rung : i < j => rung[i] < rung[j]
\* an alarm is completed only when its last occurrence has rung or is a day old
Ends == Plain /\ al.status = "completed" => al.last = Occ(al, al.rep) \/ now - Occ(al, al.rep) > DayS
=============================================================================
