------------------------------- MODULE TzStore -------------------------------
(***************************************************************************)
(* The store of timezone definitions.                                      *)
(*                                                                         *)
(* Models the protocol by which the function of TzBase is kept: a list of  *)
(* definitions read so far, a memo of answers (negative ones included) and *)
(* two sets of ids known to be standard or not.  Checked: after every      *)
(* history the protocol answers every question like the abstract store.    *)
(* The same module generates the histories replayed on the real code.      *)
(***************************************************************************)
EXTENDS TzBase, FiniteSets, Json, IOUtils, CSV
-------------------------------------------------------------------------------
CONSTANTS Ids, StdIds, Defs, Depth, EmitOn
VARIABLES abs, file, memo, yes, no, dir, hist
vars == <<abs, file, memo, yes, no, dir, hist>>
StdDefs == [i \in dir |-> 9]       \* what the directory has now
Init == dir = StdIds /\ abs = <<>> /\ file = <<>> /\ memo = <<>> /\ yes = {} /\ no = {} /\ hist = <<>>
First(f, id) == LET S == {k \in DOMAIN f : f[k][1] = id} IN IF S = {} THEN 0 ELSE f[CHOOSE k \in S : \A j \in S : k <= j][2]
\* the protocol's lookup: new [file, memo, yes, no, def]
PLook(s, id) ==
  IF id \in DOMAIN s.memo THEN [s EXCEPT !.def = s.memo[id]]
  ELSE LET a == First(s.file, id)
           f == IF a = 0 /\ id \in dir THEN Append(s.file, <<id, 9>>) ELSE s.file
           b == First(f, id)
       IN [file |-> f, memo |-> (id :> b) @@ s.memo, yes |-> IF b # 0 THEN s.yes \cup {id} ELSE s.yes, no |-> IF b = 0 THEN s.no \cup {id} ELSE s.no, def |-> b]
PAdd(s, id, def) == [file |-> Append(s.file, <<id, def>>), memo |-> (id :> def) @@ s.memo, yes |-> s.yes \ {id}, no |-> s.no \cup {id}, def |-> 0]
PMerge(s, id, def) == LET t == PLook(s, id) IN IF t.def = 0 THEN PAdd(t, id, def) ELSE t
PIsStd(s, id) == IF id \in s.yes THEN TRUE ELSE IF id \in s.no THEN FALSE ELSE id \in PLook(s, id).yes
S0 == [file |-> file, memo |-> memo, yes |-> yes, no |-> no, def |-> 0]
Set(s) == file' = s.file /\ memo' = s.memo /\ yes' = s.yes /\ no' = s.no
Log(e) == hist' = Append(hist, e)
Next == \/ /\ Len(hist) < Depth
           /\ \/ \E i \in Ids : Set(PLook(S0, i)) /\ UNCHANGED abs /\ UNCHANGED dir /\ Log([op |-> "lookup", id |-> i, def |-> 0])
              \/ \E i \in Ids : Set(IF i \in yes \cup no THEN S0 ELSE PLook(S0, i)) /\ UNCHANGED abs /\ UNCHANGED dir /\ Log([op |-> "std", id |-> i, def |-> 0])
              \/ \E i \in Ids, d \in Defs : Set(PMerge(S0, i, d)) /\ abs' = LoadAll(abs, StdDefs, <<<<i, d>>>>) /\ UNCHANGED dir /\ Log([op |-> "load", id |-> i, def |-> d])
              \/ \E i \in Ids, d \in Defs : Set(PAdd(S0, i, d)) /\ abs' = Put(abs, i, d) /\ UNCHANGED dir /\ Log([op |-> "add", id |-> i, def |-> d])
              \/ \E i \in dir : Set([S0 EXCEPT !.file = Append(@, <<i, 9>>)]) /\ UNCHANGED <<abs, dir>> /\ Log([op |-> "cache", id |-> i, def |-> 0])
              \* the files of the directory change, and the store forgets all it knew
              \/ \E D \in {dir, {}, StdIds} : Set([file |-> <<>>, memo |-> <<>>, yes |-> {}, no |-> {}, def |-> 0]) /\ abs' = <<>> /\ dir' = D /\ Log([op |-> "clear", id |-> 0, def |-> IF D = {} THEN 0 ELSE 1])
        \/ /\ Len(hist) = Depth /\ EmitOn
           /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
           /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<abs, file, memo, yes, no, dir>>
Spec == Init /\ [][Next]_vars
SameAnswers == \A i \in Ids : LET want == Look(abs, StdDefs, i) IN PLook(S0, i).def = want.def /\ (PIsStd(S0, i) <=> want.std = 1)
View == <<abs, file, memo, yes, no, dir, Len(hist)>>
=============================================================================
