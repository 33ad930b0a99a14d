------------------------------ MODULE P27Trace ------------------------------
(***************************************************************************)
(* Output filters: what a filter selects of a calendar is defined on its   *)
(* tree; the text, jCal and xCal written through the filter must be that.  *)
(* A filter is <<all sub-components, {<<type, filter>>}, all properties,   *)
(* {<<name, value suppressed>>}>>.                                         *)
(***************************************************************************)
EXTENDS Harness, CalForms
Init27(s) == [n |-> 0]
Row(q, k) == {q[i] : i \in {j \in 1..Len(q) : q[j][1] = k}}
PropSel(F, l) == F[3] = 1 \/ Row(F[4], l.n) # {}
NoVal(F, l) == F[3] = 0 /\ \E r \in Row(F[4], l.n) : r[2] = 1
Mark(F, l) == l @@ [nov |-> NoVal(F, l)]
RECURSIVE Whole(_)
Whole(n) == [n EXCEPT !.ps = [i \in 1..Len(n.ps) |-> n.ps[i] @@ [nov |-> FALSE]], !.cs = [i \in 1..Len(n.cs) |-> Whole(n.cs[i])]]
RECURSIVE Filt(_, _)
Filt(n, F) ==
  LET qs == SelectSeq(n.ps, LAMBDA l : PropSel(F, l))
      ks == SelectSeq(n.cs, LAMBDA c : F[1] = 1 \/ Row(F[2], c.t) # {})
  IN [n EXCEPT !.ps = [i \in 1..Len(qs) |-> Mark(F, qs[i])],
               !.cs = [i \in 1..Len(ks) |-> IF F[1] = 1 THEN Whole(ks[i]) ELSE Filt(ks[i], (CHOOSE r \in Row(F[2], ks[i].t) : TRUE)[2])]]
Bare1(l) == IF l.nov THEN [l EXCEPT !.v = <<>>] ELSE l
RECURSIVE FCanon(_)
FCanon(n) == <<n.t, BagOf([i \in 1..Len(n.ps) |-> CProp(Bare1(n.ps[i]))]), BagOf([i \in 1..Len(n.cs) |-> FCanon(n.cs[i])])>>
RECURSIVE FJ(_)
FJ(n) == <<Low(n.t), BagOf([i \in 1..Len(n.ps) |-> IF n.ps[i].nov THEN <<Low(n.ps[i].n), FPars(n.ps[i]), <<>>, <<>>>> ELSE JProp(n.ps[i])]),
           BagOf([i \in 1..Len(n.cs) |-> FJ(n.cs[i])])>>
RECURSIVE FX(_)
FX(n) == <<Low(n.t), BagOf([i \in 1..Len(n.ps) |-> IF n.ps[i].nov THEN <<Low(n.ps[i].n), FPars(n.ps[i]), <<>>>> ELSE XProp(n.ps[i])]),
           BagOf([i \in 1..Len(n.cs) |-> FX(n.cs[i])])>>
\* a suppressed value leaves something that can be read only where any text is a value
RECURSIVE Readable(_)
Readable(n) == /\ \A i \in 1..Len(n.ps) : n.ps[i].nov => EType(n.ps[i]) \in {"TEXT", "URI", "CAL-ADDRESS", "UNKNOWN", "OTHER", "BINARY"} /\ n.ps[i].n # N_REQUEST_STATUS
               /\ \A i \in 1..Len(n.cs) : Readable(n.cs[i])
RECURSIVE Everything(_, _)
Everything(n, F) == /\ F[3] = 1
                    /\ F[1] = 1 \/ \A i \in 1..Len(n.cs) : Row(F[2], n.cs[i].t) # {} /\ Everything(n.cs[i], (CHOOSE r \in Row(F[2], n.cs[i].t) : TRUE)[2])
Step27(st, e) ==
  IF e.ok # 1 THEN Bad(st, "error", "written")
  ELSE LET a == Read(Lines(e.data), FALSE)
       IN IF a.res # "ok" THEN Bad(st, "HARNESS-document", a.res)
          ELSE LET w == Filt(a.root[1], e.filter)
                   b == Read(Lines(e.out), FALSE)
               IN IF b.res # "ok" THEN Bad(st, "written-not-a-calendar", b.res)
                  ELSE IF Canon(b.root[1]) # FCanon(w) THEN Bad(st, "text", [missing |-> FCanon(w)[2] \ CProps(b.root[1]), extra |-> CProps(b.root[1]) \ FCanon(w)[2]])
                  ELSE IF Everything(a.root[1], e.filter) /\ e.full # 1 THEN Bad(st, "everything-selected", "the unfiltered text")
                  ELSE IF Readable(w) /\ (\E k \in 1..Len(w.ps) : w.ps[k].n = T_VERSION) /\ (\A k \in 1..Len(w.ps) : w.ps[k].n \in {T_VERSION, N_CALSCALE} => ~w.ps[k].nov) /\ e.read # 1 THEN Bad(st, "not-read-back", "a calendar with the same lines")
                  ELSE IF e.jshape # 1 \/ GotJ(e.json) # FJ(w) THEN Bad(st, "jcal", FJ(w))
                  ELSE IF e.xshape # 1 \/ GotX(e.xml) # FX(w) THEN Bad(st, "xcal", FX(w))
                  ELSE Check(st, e.same = 1, "filtering-changes-calendar", "unchanged")
=============================================================================
