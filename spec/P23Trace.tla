------------------------------ MODULE P23Trace ------------------------------
(***************************************************************************)
(* The timezone store and the calendars that feed it and are completed     *)
(* from it, on the real code, against TzBase.                              *)
(***************************************************************************)
EXTENDS Harness, TzBase, FiniteSets
RECURSIVE ToFun(_)
ToFun(q) == IF q = <<>> THEN [x \in {} |-> 0] ELSE (q[1][1] :> q[1][2]) @@ ToFun(Tail(q))
Set(q) == {q[i] : i \in DOMAIN q}
Bag(q) == [x \in Set(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
Init23(s) == [store |-> ToFun(<<>>), std |-> ToFun(s.init.std), rank |-> ToFun(s.init.rank), cals |-> ToFun(<<>>)]
L(st, id) == Look(st.store, st.std, id)
\* the same definitions (in whatever order)
SameTz(a, b) == Len(a) = Len(b) /\ Bag(a) = Bag(b)
RECURSIVE AddSet(_, _)
AddSet(q, S) == IF S = {} THEN q ELSE LET x == CHOOSE x \in S : TRUE IN AddSet(Append(q, x), S \ {x})
\* definitions in the order of their offset, then their id (given in lower case)
Sorted(q) == \A i \in DOMAIN q : i + 1 \in DOMAIN q => (q[i][2] < q[i + 1][2] \/ (q[i][2] = q[i + 1][2] /\ q[i][1] <= q[i + 1][1]))
Step23(st, e) ==
  CASE e.op = "load" ->
         LET n == [st EXCEPT !.store = LoadAll(st.store, st.std, e.tzs), !.cals = (e.c :> [tzs |-> e.tzs, refs |-> Set(e.refs)]) @@ st.cals]
         IN IF e.ok # 1 THEN BadStop(n, "error", "loaded")
            ELSE Check(n, SameTz(e.res, e.tzs) /\ \A i \in DOMAIN e.offs : e.offs[i][2] = L(n, e.offs[i][1]).def, "loaded", [i \in DOMAIN e.offs |-> L(n, e.offs[i][1]).def])
    [] e.op = "reload" ->       \* the same text was read again
         OK(st)
    [] e.op = "badload" ->      \* refused: nothing is taken over
         Check(st, e.ok # 1, "accepted", "refused")
    [] e.op = "add" ->
         LET n == [st EXCEPT !.store = Put(st.store, e.id, e.def)] IN IF e.ok # 1 THEN BadStop(n, "error", "added") ELSE OK(n)
    [] e.op = "cache" ->
         Check(st, IF e.dir = 0 THEN e.ok = 1 ELSE (e.ok = 1) = (e.id \in DOMAIN st.std), "cache", e.id \in DOMAIN st.std)
    [] e.op = "clear" -> IF e.ok # 1 THEN BadStop(st, "error", "cleared") ELSE OK([st EXCEPT !.store = ToFun(<<>>), !.std = ToFun(e.std)])       \* the directory may have changed before
    [] e.op \in {"lookup", "off", "desc", "incal"} ->
         IF e.ok # 1 THEN BadStop(st, "error", L(st, e.id)) ELSE Check(st, e.res = L(st, e.id).def, e.op, L(st, e.id))
    [] e.op = "std" -> IF e.ok # 1 THEN BadStop(st, "error", L(st, e.id)) ELSE Check(st, e.res = L(st, e.id).std, "standard", L(st, e.id))
    [] e.op = "edit" ->         \* a definition inside a calendar changes: the store does not
         LET n == [st EXCEPT !.cals[e.c].tzs[e.i] = <<@[1], e.def>>] IN IF e.ok # 1 THEN BadStop(n, "error", "edited") ELSE OK(n)
    [] e.op = "strip" ->
         LET old == st.cals[e.c].tzs
             new == Stripped(st.store, st.std, old)
             n == [st EXCEPT !.cals[e.c].tzs = new]
         IN IF e.ok # 1 THEN BadStop(n, "error", new)
            ELSE IF ~SameTz(e.res, new) THEN BadStop(n, "stripped", new)
            ELSE Check(n, (e.changed = 1) = (Len(new) # Len(old)), "changed", Len(new) # Len(old))
    [] e.op = "complete" ->
         LET c == st.cals[e.c]
             want == Missing(st.store, st.std, c.tzs, c.refs, e.mode)
             new == AddSet(c.tzs, want)
             n == [st EXCEPT !.cals[e.c].tzs = e.res]
         IN IF e.ok # 1 THEN BadStop(st, "error", new)
            ELSE IF ~SameTz(e.res, new) THEN BadStop(n, "completed", new)
            ELSE Check(n, e.how = "call" \/ SameTz(e.out, new), "written", new)
    [] e.op = "sort" -> IF e.ok # 1 THEN BadStop(st, "error", "sorted") ELSE Check(st, Sorted([i \in DOMAIN e.res |-> <<st.rank[e.res[i][1]], e.res[i][2]>>]), "sorted", "by offset, then id")
    [] OTHER -> OK(st)
=============================================================================
