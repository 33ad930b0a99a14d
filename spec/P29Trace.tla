------------------------------ MODULE P29Trace ------------------------------
(***************************************************************************)
(* Alarms on the real code.  An alarm is what its text says: action and    *)
(* the data of the action, trigger, repeats and interval, status.  Editing *)
(* replaces them; writing and reading keep them; times follow AlarmClock.  *)
(* That the alarm was found completed when asked is not written (saved).   *)
(* Times are seconds since 2020-01-01T00:00:00.                            *)
(***************************************************************************)
EXTENDS Harness, AlarmClock
Upper(s) == CASE s = "audio" -> "AUDIO" [] s = "Display" -> "DISPLAY" [] s = "email" -> "EMAIL" [] s = "end" -> "END" [] s = "Start" -> "START" [] s = "uri" -> "URI" [] s = "none" -> "NONE" [] OTHER -> s
\* --- what an alarm says
Kind(a) == IF Upper(a) \in {"AUDIO", "DISPLAY", "EMAIL", "URI", "NONE", "PROCEDURE"} THEN Upper(a) ELSE "UNKNOWN"
Said(t) == [act |-> Kind(t.act), abs |-> t.abs, on |-> t.on, by |-> t.by, start |-> IF Upper(t.rel) = "END" THEN 0 ELSE 1,
            rep |-> IF t.rep < 0 THEN 0 ELSE t.rep, int |-> IF t.int = None THEN 300 ELSE t.int, data |-> t.data]
\* --- its first trigger, for a component that runs from e.start to e.end
First(st) == IF st.v.abs = 1 THEN st.v.on ELSE (IF st.v.start = 1 THEN st.start ELSE st.end) + st.v.by
\* the accessors show what is said
Shows(v, o) == /\ o.act = v.act /\ o.abs = v.abs /\ o.rep = v.rep
               /\ (IF v.abs = 1 THEN o.on = v.on ELSE o.by = v.by /\ o.start = v.start)
               /\ (v.rep > 0 => o.int = v.int)
               /\ (v.act \in {"AUDIO", "DISPLAY", "EMAIL", "URI"} => o.data = v.data)
\* what is shown, and what is shown after writing and reading
Seen(st, e) == IF e.ok # 1 THEN BadStop(st, "error", "answered")
               ELSE IF ~Shows(st.v, e.view) THEN Bad(st, "shown", st.v)
               ELSE IF ~Shows(st.v, e.again) THEN Bad(st, "after-reading", st.v)
               ELSE IF e.view.status # st.c.status \/ e.again.status # st.saved THEN Bad(st, "status", <<st.c.status, st.saved>>)
               ELSE OK(st)
Sync(st) == [st EXCEPT !.c.first = First(st), !.c.rep = st.v.rep, !.c.int = st.v.int]
Edit(st, v) == Sync([st EXCEPT !.v = v, !.c.known = FALSE])
Init29(s) == LET v == Said(s.init.t) IN
             Sync([v |-> v, start |-> s.init.start, end |-> s.init.end, now |-> 0, saved |-> "pending", c |-> New(0, v.rep, v.int)])
Step29(st, e) ==
  CASE e.op = "parse" -> Seen(st, e)
    [] e.op = "seen" -> Seen(st, e)
    [] e.op = "pass" -> OK([st EXCEPT !.now = @ + e.k])
    [] e.op = "triggeron" -> LET n == Edit(st, [st.v EXCEPT !.abs = 1, !.on = e.on]) IN Seen(n, e)
    [] e.op = "trigger" -> LET n == Edit(st, [st.v EXCEPT !.abs = 0, !.by = e.by, !.start = e.start]) IN Seen(n, e)
    [] e.op = "repeats" -> LET n == Edit(st, [st.v EXCEPT !.rep = e.rep, !.int = IF e.rep > 0 THEN e.int ELSE 300]) IN Seen(n, e)
    [] e.op = "action" -> LET n == Edit(st, [st.v EXCEPT !.act = e.act, !.data = e.data]) IN Seen(n, e)
    [] e.op = "status" -> LET n == [st EXCEPT !.saved = e.status, !.c = Changed([@ EXCEPT !.status = e.status])] IN Seen(n, e)
    [] e.op = "first" -> IF e.ok # 1 THEN BadStop(st, "error", First(st)) ELSE Check(st, e.at = First(st), "first-trigger", First(st))
    [] e.op = "again" -> Seen([st EXCEPT !.c = [Changed(@) EXCEPT !.done = 0, !.status = st.saved]], e)
    [] e.op = "next" -> LET n == [st EXCEPT !.c = Find(@, st.now)] IN
                        IF e.ok # 1 THEN BadStop(n, "error", n.c.next)
                        ELSE IF n.c.status = "completed" THEN Check(n, e.status = "completed", "next-status", "completed")
                        ELSE IF e.status # n.c.status THEN Bad(n, "next-status", n.c.status)
                        ELSE Check(n, e.at = n.c.next, "next-trigger", n.c.next)
    [] e.op = "fire" -> LET f == [st EXCEPT !.c = Find(@, st.now)] IN
                        IF e.ok # 1 THEN BadStop(f, "error", "rung")
                        ELSE IF f.c.status # "pending" \/ f.c.next > st.now THEN Check(f, e.rung = 0, "rings", "does not ring")
                        ELSE LET r == Ring(f.c)
                                  n == [f EXCEPT !.c = r, !.saved = r.status] IN
                             IF e.rung # 1 THEN Bad(n, "rings", "rings")
                             ELSE IF e.more # (IF n.c.status = "pending" THEN 1 ELSE 0) THEN Bad(n, "rings-again", n.c.status)
                             ELSE IF n.c.status = "pending" /\ e.at # n.c.next THEN Bad(n, "next-trigger", n.c.next)
                             ELSE Seen(n, e)
    [] OTHER -> OK(st)
=============================================================================
