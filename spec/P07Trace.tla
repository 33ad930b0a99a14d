------------------------------ MODULE P07Trace ------------------------------
(* A session is one rule and start; each event expands a fresh rule object over one range. *)
EXTENDS RecurObs
InitSt_(s) == s.init
Step_(st, e) == ExpandVerdict(st.rule, st.start, e, st)
=============================================================================
