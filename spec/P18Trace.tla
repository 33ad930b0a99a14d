------------------------------ MODULE P18Trace ------------------------------
(* jCal: the form written (CalForms), reading it back, and reading equivalent jCal. *)
EXTENDS Harness, CalForms
Init18(s) == [n |-> 0]
Diff(a, b) == [missing |-> a[2] \ b[2], extra |-> b[2] \ a[2], comps |-> a[3] = b[3]]
Step18(st, e) ==
  IF e.ok # 1 THEN Bad(st, "error", "written and read")
  ELSE LET a == Read(Lines(e.data), FALSE)
       IN IF a.res # "ok" THEN Bad(st, "HARNESS-document", a.res)
          ELSE LET want == JTree(a.root[1])
                   got == GotJ(e.node)
                   f == Faithful(a.root[1])
               IN IF e.shape # 1 THEN Bad(st, "not-the-shape", "arrays of name, parameters, type and values")
                  ELSE IF got # want THEN Bad(st, "jcal", Diff(want, got))
                  ELSE IF f /\ e.eq # 1 THEN Bad(st, "reread-not-equal", "equal")
                  ELSE IF f /\ e.text # 1 THEN Bad(st, "text-differs", "the same text")
                  ELSE IF e.again # 1 THEN Bad(st, "written-again-differs", "the same jCal")
                  ELSE Check(st, ~f \/ e.variant = 1, "equivalent-jcal-differs", "equal")
=============================================================================
