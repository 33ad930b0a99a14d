------------------------------ MODULE P20Trace ------------------------------
(***************************************************************************)
(* Validation and repair on the real code against Validity.                *)
(***************************************************************************)
EXTENDS Harness, Validity
Init20(s) == [card |-> s.init.card = 1, tree |-> [t |-> "", a |-> "", p |-> <<>>, c |-> <<>>]]
Step20(st, e) ==
  CASE e.op = "load" -> IF e.ok # 1 THEN BadStop(st, "error", "read") ELSE OK([st EXCEPT !.tree = e.tree])
    [] e.op = "validate" ->
         LET v == IF e.sub = 0 THEN Validate(st.tree, e.fix = 1, FALSE, FALSE, st.card)
                  ELSE Validate(st.tree.c[e.sub], e.fix = 1, TRUE, Has(st.tree, "METHOD"), st.card)
             new == IF e.sub = 0 THEN v.nd ELSE [st.tree EXCEPT !.c[e.sub] = v.nd]
             n == [st EXCEPT !.tree = new]
             raise == e.raise = 1 /\ v.unfixed # <<>>
             exp == [fixed |-> v.fixed, unfixed |-> v.unfixed]
         IN IF e.ok # 1 THEN BadStop(st, "error", exp)
            ELSE IF (e.raised = 1) # raise THEN BadStop(n, "raised", exp)
            ELSE IF ~(raise \/ SameBag(e.fixed, v.fixed)) THEN BadStop(n, "fixed", exp)
            ELSE IF ~SameBag(e.unfixed, v.unfixed) THEN BadStop(n, "unfixed", exp)
            ELSE IF Canon(e.tree) # Canon(new) THEN BadStop(n, IF e.fix = 1 THEN "repaired" ELSE "changed", exp)
            ELSE IF e.same # 1 THEN BadStop(n, "stale", "the object shows what its text says")
            ELSE OK([st EXCEPT !.tree = e.tree])
    [] OTHER -> OK(st)
=============================================================================
