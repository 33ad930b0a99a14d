-------------------------------- MODULE Nest --------------------------------
(***************************************************************************)
(* The calendar reader as a pushdown machine over content lines.  A line   *)
(* is classified as [k: begin, t] [k: end, t] [k: blank] [k: prop, n, v]   *)
(* [k: junk].  The machine's state: phase, stack of open nodes, outcome.   *)
(* A node is [t, ps: sequence of property lines, cs: sequence of nodes].   *)
(***************************************************************************)
EXTENDS Integers, Sequences
Node(t) == [t |-> t, ps |-> <<>>, cs |-> <<>>]
NStart == [ph |-> "out", stk |-> <<>>, res |-> "run", root |-> <<>>]
NFail(m) == [m EXCEPT !.res = "fail"]
Top(m) == m.stk[Len(m.stk)]
\* root: the type of the calendar object; strict: blank lines are refused
NStep(m, l, root, strict) ==
  IF m.res # "run" THEN m
  ELSE IF l.k = "blank" THEN IF strict THEN NFail(m) ELSE m
  ELSE IF m.ph = "out" THEN
       IF l.k = "begin" /\ l.t = root THEN IF m.root # <<>> THEN [m EXCEPT !.res = "free"]        \* a second calendar object
                                           ELSE [m EXCEPT !.ph = "in", !.stk = <<Node(root)>>]
       ELSE NFail(m)
  ELSE IF l.k = "begin" THEN IF l.t = root THEN NFail(m) ELSE [m EXCEPT !.stk = Append(@, Node(l.t))]
  ELSE IF l.k = "end" THEN
       IF Top(m).t # l.t THEN NFail(m)
       ELSE IF Len(m.stk) = 1 THEN [m EXCEPT !.ph = "out", !.root = <<Top(m)>>, !.stk = <<>>]
       ELSE LET c == Top(m) s == SubSeq(m.stk, 1, Len(m.stk) - 1) IN [m EXCEPT !.stk = [s EXCEPT ![Len(s)].cs = Append(@, c)]]
  ELSE IF l.k = "prop" THEN [m EXCEPT !.stk = [@ EXCEPT ![Len(@)].ps = Append(@, l)]]
  ELSE NFail(m)
NEnd(m) == IF m.res # "run" THEN m ELSE IF m.ph = "in" THEN NFail(m) ELSE IF m.root = <<>> THEN NFail(m) ELSE [m EXCEPT !.res = "ok"]
=============================================================================
