------------------------------ MODULE P22Trace ------------------------------
(***************************************************************************)
(* Copies on the real code: every object is its history (CopyHist).  The   *)
(* event "ref" tells what an object of that history that was never copied, *)
(* nor is a copy, shows; every observation of an object with the same      *)
(* history must show the same.                                             *)
(***************************************************************************)
EXTENDS Harness
Init22(s) == [lin |-> << <<>> >>, tab |-> {}]
Known(st, l) == \E x \in st.tab : x[1] = l
Shown(st, l) == (CHOOSE x \in st.tab : x[1] = l)[2]
\* an object some of whose parts were changed in place behind its back (negative entries) is not judged;
\* those it was copied from or to are
Wild(l) == \E i \in DOMAIN l : l[i] < 0
Act(st, e, k) == [st EXCEPT !.lin[e.o] = Append(@, k)]
Want(n, e) == Shown(n, n.lin[e.o])
Step22(st, e) ==
  CASE e.op = "ref" -> OK([st EXCEPT !.tab = @ \cup {<<e.lin, e.show>>}])
    [] e.op = "dup" -> LET n == [st EXCEPT !.lin = Append(@, st.lin[e.o])] IN
                       IF e.ok # 1 THEN BadStop(n, "error", "copied")
                       ELSE IF e.eq # 1 /\ ~Wild(st.lin[e.o]) THEN Bad(n, "copy-not-equal", "equal to its original")
                       ELSE Check(n, e.text = 1, "copy-text", "the text of its original")
    [] e.op = "mut" -> LET n == Act(st, e, e.k) IN
                       IF Wild(n.lin[e.o]) THEN OK(n)
                       ELSE IF ~Known(n, n.lin[e.o]) THEN Bad(n, "HARNESS-no-reference", n.lin[e.o])
                       ELSE Check(n, e.show = Shown(n, n.lin[e.o]), "change-result", Shown(n, n.lin[e.o]))
    [] e.op = "qry" -> LET n == Act(st, e, e.k) IN Check(n, Wild(n.lin[e.o]) \/ e.show = Shown(n, n.lin[e.o]), "query-result", Want(n, e))
    [] e.op = "obs" -> LET n == Act(st, e, e.k) IN Check(n, Wild(n.lin[e.o]) \/ e.show = Shown(n, n.lin[e.o]), "content", Want(n, e))
    [] e.op = "wild" -> OK(Act(st, e, -e.k))
    [] OTHER -> OK(st)
=============================================================================
