------------------------------- MODULE CopyHist -------------------------------
(***************************************************************************)
(* Copies as a state machine: objects are nothing but their histories.  A  *)
(* copy starts with the history of its original and from then on has its   *)
(* own; what an object contains and answers is a function of its history.  *)
(* Histories (changes, queries, observations, copies of copies) are        *)
(* generated here and replayed on real objects.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS MaxObj, Depth, Kinds, Emit
VARIABLES lin, hist
vars == <<lin, hist>>
Init == lin = << <<>> >> /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Dup(i) == Len(lin) < MaxObj /\ lin' = Append(lin, lin[i]) /\ Log([op |-> "dup", o |-> i, k |-> 0])
Act(op, i, k) == lin' = [lin EXCEPT ![i] = Append(@, <<op, k>>)] /\ Log([op |-> op, o |-> i, k |-> k])
Next == \/ /\ Len(hist) < Depth
           /\ \E i \in 1..Len(lin) : Dup(i) \/ (\E k \in Kinds : Act("mut", i, k)) \/ Act("qry", i, 0) \/ Act("obs", i, 0)
        \/ /\ Len(hist) = Depth /\ Emit
           /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
           /\ hist' = Append(hist, [op |-> "end", o |-> 0, k |-> 0]) /\ UNCHANGED lin
Spec == Init /\ [][Next]_vars
\* acting on one object leaves the history of every other as it was; a copy has that of its original
Independent == [][\A j \in 1..Len(lin) : lin'[j] # lin[j] => hist'[Len(hist')].o = j /\ hist'[Len(hist')].op # "dup"]_vars
CopyEqual == [][Len(lin') > Len(lin) => lin'[Len(lin')] = lin[hist'[Len(hist')].o]]_vars
=============================================================================
