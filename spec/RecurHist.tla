------------------------------ MODULE RecurHist ------------------------------
(***************************************************************************)
(* The expansion cache of recurrence rules as a state machine.             *)
(* Rules, starts and range ends are abstract: rule q started at s has the  *)
(* instants Inst(q, s).  Objects carry a cache exactly as the code does    *)
(* (start it is for, how far it reaches, whether it is the whole set).     *)
(* Checked: every answer is the answer of a new object (Fresh), after any  *)
(* history of expansions, aborted expansions, setters, copies and          *)
(* modification of values handed out.  The same module generates the       *)
(* histories that are replayed on the real code.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Rules, Starts, Ends, Maxes, MaxObjs, Depth, Emit
VARIABLES objs, ans, hist
vars == <<objs, ans, hist>>

\* rule 1: every unit, unbounded; 2: every second unit, unbounded; 3: every unit, three instants; 4: every third unit, two instants
Step1(q) == CASE q = 1 -> 1 [] q = 2 -> 2 [] q = 3 -> 1 [] OTHER -> 3
Count(q) == CASE q = 3 -> 3 [] q = 4 -> 2 [] OTHER -> 99
Inst(q, s, hi) == {s + k * Step1(q) : k \in {j \in 0..20 : j < Count(q) /\ s + j * Step1(q) < hi}}
Whole(q, s, hi) == Count(q) < 99 /\ Cardinality(Inst(q, s, hi)) = Count(q)
TooMany == [k |-> "toomany", items |-> {}]
Fresh(q, s, hi, max) == IF max > 0 /\ Cardinality(Inst(q, s, hi)) > max THEN TooMany ELSE [k |-> "ok", items |-> Inst(q, s, hi)]

NoCache == [valid |-> FALSE, start |-> 0, upto |-> 0, full |-> FALSE, items |-> {}]
New(q) == [rule |-> q, cache |-> NoCache]
Nothing == [k |-> "none"]

Init == \E q \in Rules : objs = <<New(q)>> /\ ans = Nothing /\ hist = <<[op |-> "new", o |-> 1, q |-> q]>>

Log(e) == hist' = Append(hist, e)
Usable(c, s, hi) == c.valid /\ c.start = s /\ (c.full \/ c.upto >= hi)
Expand(o, s, hi, max) ==
  LET c == objs[o].cache
      q == objs[o].rule
      f == Fresh(q, s, hi, max)
  IN /\ IF Usable(c, s, hi)
        THEN LET got == {x \in c.items : x < hi} IN
             /\ ans' = [k |-> "expand", got |-> IF max > 0 /\ Cardinality(got) > max THEN TooMany ELSE [k |-> "ok", items |-> got], want |-> f]
             /\ UNCHANGED objs
        ELSE /\ ans' = [k |-> "expand", got |-> f, want |-> f]
             /\ objs' = [objs EXCEPT ![o].cache = IF f.k = "toomany" THEN NoCache     \* aborted: nothing may be kept
                           ELSE [valid |-> TRUE, start |-> s, upto |-> hi, full |-> Whole(q, s, hi), items |-> f.items]]
     /\ Log([op |-> "expand", o |-> o, s |-> s, hi |-> hi, max |-> max])
Set(o, q) == /\ objs' = [objs EXCEPT ![o] = New(q)]
             /\ ans' = Nothing
             /\ Log([op |-> "set", o |-> o, q |-> q])
Dup(o) == /\ Len(objs) < MaxObjs
          /\ objs' = Append(objs, objs[o])
          /\ ans' = Nothing
          /\ Log([op |-> "dup", o |-> o])
Spoil == /\ ans.k = "expand"            \* the caller modifies everything the last expansion gave or took
         /\ ans' = Nothing /\ UNCHANGED objs
         /\ Log([op |-> "spoil"])
Next == \/ /\ Len(hist) < Depth
           /\ \/ \E o \in 1..Len(objs), s \in Starts, hi \in Ends, max \in Maxes : Expand(o, s, hi, max)
              \/ \E o \in 1..Len(objs), q \in Rules : q # objs[o].rule /\ Set(o, q)
              \/ \E o \in 1..Len(objs) : Dup(o)
              \/ Spoil
        \/ /\ Len(hist) = Depth /\ Emit
           /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
           /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<objs, ans>>
Spec == Init /\ [][Next]_vars
AnswerIsFresh == ans.k = "expand" => ans.got = ans.want
CacheSound == \A o \in 1..Len(objs) : LET c == objs[o].cache IN
                c.valid => /\ c.items = Inst(objs[o].rule, c.start, c.upto)
                           /\ c.full => c.items = Inst(objs[o].rule, c.start, 99)
View == <<objs, ans, Len(hist)>>
=============================================================================
