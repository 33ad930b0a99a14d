------------------------------ MODULE ItemHist ------------------------------
(***************************************************************************)
(* Histories of edits of an item.  Next to what the item says (ItemEdit)   *)
(* there is the item as it is kept: a list of properties <<name, value>>   *)
(* and values read from them; every edit removes the properties it         *)
(* replaces and adds new ones.  Invariants: the list says what the item    *)
(* says, every edited property is there once or not at all, the other      *)
(* properties stay, and reading the list again changes nothing.            *)
(* Also generates the histories replayed on the code, and checks that the  *)
(* display order of to-dos is an order.                                    *)
(***************************************************************************)
EXTENDS ItemEdit, TLC, Json, IOUtils, CSV, FiniteSets
CONSTANTS Depth, Kinds, Vals, Emit
VARIABLES it, props, now, hist
vars == <<it, props, now, hist>>
Single == {"STATUS", "COMPLETED", "SUMMARY", "DESCRIPTION", "LOCATION"}
Drop(ps, names) == SelectSeq(ps, LAMBDA p : p[1] \notin names)
Get(ps, name) == LET q == SelectSeq(ps, LAMBDA p : p[1] = name) IN IF q = <<>> THEN <<>> ELSE <<q[1][2]>>
Num(ps, name) == Len(SelectSeq(ps, LAMBDA p : p[1] = name))
N(ps) == [STATUS |-> Num(ps, "STATUS"), COMPLETED |-> Num(ps, "COMPLETED"), SUMMARY |-> Num(ps, "SUMMARY"),
          DESCRIPTION |-> Num(ps, "DESCRIPTION"), LOCATION |-> Num(ps, "LOCATION")]
Read(k, ps) == [kind |-> k, status |-> IF Get(ps, "STATUS") = <<>> THEN 0 ELSE Get(ps, "STATUS")[1], done |-> Get(ps, "COMPLETED"),
                sum |-> Get(ps, "SUMMARY"), desc |-> Get(ps, "DESCRIPTION"), loc |-> Get(ps, "LOCATION"), n |-> N(ps)]
Given == {<<>>, <<<<"UID", 1>>>>, <<<<"STATUS", 2>>, <<"UID", 1>>, <<"SUMMARY", <<7>>>>>>, <<<<"DESCRIPTION", <<8>>>>, <<"X", 1>>, <<"COMPLETED", 0>>, <<"STATUS", 3>>>>}
Init == \E k \in Kinds, g \in Given : props = g /\ it = Read(k, g) /\ now = 1 /\ hist = <<>>
More == Len(hist) < Depth
Log(o) == hist' = Append(hist, [op |-> o])
\* a to-do's own copy of its time of completion is replaced, not changed, by an edit
Status(s) == /\ More /\ it.kind # "VJOURNAL" /\ (it.kind = "VEVENT" => s < 4) /\ Log("status") /\ UNCHANGED now
             /\ it' = EditStatus(it, s, now)
             /\ props' = IF s = it.status THEN props
                         ELSE Drop(props, IF it.kind = "VTODO" THEN {"STATUS", "COMPLETED"} ELSE {"STATUS"})
                              \o (IF it.kind = "VTODO" /\ s = 3 THEN <<<<"COMPLETED", now>>>> ELSE <<>>)
                              \o (IF s = 0 THEN <<>> ELSE <<<<"STATUS", s>>>>)
Done(t) == /\ More /\ it.kind = "VTODO" /\ Log("done") /\ UNCHANGED now
           /\ it' = EditDone(it, t) /\ props' = Drop(props, {"COMPLETED"}) \o <<<<"COMPLETED", t>>>>
Put(ps, name, x) == Drop(ps, {name}) \o (IF x = <<>> THEN <<>> ELSE <<<<name, x>>>>)
Summary(x) == More /\ Log("summary") /\ it' = EditSummary(it, x) /\ props' = Put(props, "SUMMARY", x) /\ UNCHANGED now
Details(x, y) == More /\ Log("details") /\ it' = EditDetails(it, x, y) /\ props' = Put(Put(props, "DESCRIPTION", x), "LOCATION", y) /\ UNCHANGED now
Again(o) == More /\ Log(o) /\ it' = Read(it.kind, props) /\ UNCHANGED <<props, now>>
V(x) == IF x = 0 THEN <<>> ELSE <<x>>
Pass == More /\ Log("pass") /\ now' = now + 1 /\ UNCHANGED <<it, props>>
Look == More /\ (\E o \in {"state", "order", "name", "cdesc"} : Log(o)) /\ UNCHANGED <<it, props, now>>
Out == /\ Len(hist) = Depth /\ Emit
       /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
       /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<it, props, now>>
Next == (\E s \in 0..4 : Status(s)) \/ (\E t \in {0, 5} : Done(t)) \/ (\E x \in Vals : Summary(V(x))) \/ (\E x, y \in Vals : Details(V(x), V(y)))
        \/ (\E o \in {"text", "json", "dup"} : Again(o)) \/ Pass \/ Look \/ Out
Spec == Init /\ [][Next]_vars
View == <<it, props, now, Len(hist)>>
Says == Read(it.kind, props) = it
Once == \A n \in Single : Num(props, n) <= 1
Others == Drop(props, Single) \in {Drop(g, Single) : g \in Given}
\* the display order on some to-dos, at one time of day or all of them whole days
Days == {[day |-> d, sec |-> 0, do |-> 1] : d \in 1..3}
Todos == {[status |-> s, start |-> a, due |-> u, done |-> <<a>>, prio |-> p] :
            s \in {0, 1, 3, 4}, a \in {x \in Days : x.day < 3}, u \in {<<>>} \cup {<<x>> : x \in Days}, p \in {1, 2}}
ASSUME \A a, b \in Todos : Order(a, b, 2) = -Order(b, a, 2)
ASSUME \A a, b, c \in {t \in Todos : (t.status # 4 /\ t.prio = 1) \/ t.start.day = 1} :
          Order(a, b, 2) <= 0 /\ Order(b, c, 2) <= 0 => Order(a, c, 2) <= 0
=============================================================================
