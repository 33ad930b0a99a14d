------------------------------ MODULE P28Trace ------------------------------
(* xCal: the XML written for a calendar is its meaning in RFC 6321 form (CalForms). *)
EXTENDS Harness, CalForms
Init28(s) == [n |-> 0]
Diff(a, b) == [missing |-> a[2] \ b[2], extra |-> b[2] \ a[2], comps |-> a[3] = b[3]]
Step28(st, e) ==
  IF e.ok # 1 THEN Bad(st, "error", "written")
  ELSE LET a == Read(Lines(e.data), FALSE)
       IN IF a.res # "ok" THEN Bad(st, "HARNESS-document", a.res)
          ELSE IF e.shape # 1 THEN Bad(st, "not-the-shape", "icalendar, components, properties in the namespace")
          ELSE LET want == XTree(a.root[1])
                   got == GotX(e.node)
               IN IF got # want THEN Bad(st, "xcal", Diff(want, got))
                  ELSE Check(st, e.same = 1, "writing-changes", "the same text and XML again")
=============================================================================
