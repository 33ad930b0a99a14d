------------------------------ MODULE IndexHist ------------------------------
(***************************************************************************)
(* The UID index of a calendar as a state machine: the stored components   *)
(* and, beside them, the two maps (masters by type and UID, overrides by   *)
(* type and UID) maintained incrementally by every operation.              *)
(* Checked: after any history the maps say exactly what the store says.    *)
(* The same module generates the histories replayed on the real code.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Types, Uids, Rids, MaxComps, Depth, Emit
VARIABLES comps, mast, over, hist, nid
vars == <<comps, mast, over, hist, nid>>
Slots == Types \X Uids
Init == /\ comps = <<>> /\ nid = 1
        /\ mast = TLCEval([x \in Slots |-> {}])
        /\ over = TLCEval([x \in Slots |-> {}])
        /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Add(t, u, r) ==
  /\ Len(comps) < MaxComps
  /\ comps' = Append(comps, [id |-> nid, t |-> t, u |-> u, r |-> r])
  /\ nid' = nid + 1
  /\ IF r = 0 THEN mast' = TLCEval([mast EXCEPT ![<<t, u>>] = @ \cup {nid}]) /\ UNCHANGED over
              ELSE over' = TLCEval([over EXCEPT ![<<t, u>>] = @ \cup {nid}]) /\ UNCHANGED mast
  /\ Log([op |-> "add", t |-> t, u |-> u, r |-> r])
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Remove(i) ==
  LET c == comps[i] IN
  /\ comps' = Without(comps, i)
  /\ IF c.r = 0 THEN mast' = TLCEval([mast EXCEPT ![<<c.t, c.u>>] = @ \ {c.id}]) /\ UNCHANGED over
                ELSE over' = TLCEval([over EXCEPT ![<<c.t, c.u>>] = @ \ {c.id}]) /\ UNCHANGED mast
  /\ UNCHANGED nid
  /\ Log([op |-> "remove", i |-> i])
Rename(u, v) ==
  LET merge(m) == [x \in Slots |-> IF x[2] = v THEN m[x] \cup m[<<x[1], u>>] ELSE IF x[2] = u THEN {} ELSE m[x]] IN
  /\ comps' = TLCEval([i \in 1..Len(comps) |-> IF comps[i].u = u THEN [comps[i] EXCEPT !.u = v] ELSE comps[i]])
  /\ mast' = TLCEval(IF u = v THEN mast ELSE merge(mast))
  /\ over' = TLCEval(IF u = v THEN over ELSE merge(over))
  /\ UNCHANGED nid
  /\ Log([op |-> "rename", u |-> u, v |-> v])
ClearType(t) ==
  /\ comps' = SelectSeq(comps, LAMBDA c : c.t # t)
  /\ mast' = TLCEval([x \in Slots |-> IF x[1] = t THEN {} ELSE mast[x]])
  /\ over' = TLCEval([x \in Slots |-> IF x[1] = t THEN {} ELSE over[x]])
  /\ UNCHANGED nid
  /\ Log([op |-> "cleartype", t |-> t])
Clear == /\ comps' = <<>> /\ mast' = TLCEval([x \in Slots |-> {}]) /\ over' = TLCEval([x \in Slots |-> {}]) /\ UNCHANGED nid
         /\ Log([op |-> "clear"])
Copy == /\ UNCHANGED <<comps, mast, over, nid>> /\ Log([op |-> "dup"])       \* continue with a copy, whose maps are rebuilt by adding
Look == /\ UNCHANGED <<comps, mast, over, nid>> /\ Log([op |-> "look"])
Next == \/ /\ Len(hist) < Depth
           /\ \/ \E t \in Types, u \in Uids, r \in Rids \cup {0} : Add(t, u, r)
              \/ \E i \in 1..Len(comps) : Remove(i)
              \/ \E u, v \in Uids : Rename(u, v)
              \/ Len(comps) > 1 /\ \E t \in Types : ClearType(t)
              \/ Len(comps) > 1 /\ Clear
              \/ comps # <<>> /\ (Copy \/ Look)
        \/ /\ Len(hist) = Depth /\ Emit
           /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
           /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<comps, mast, over, nid>>
Spec == Init /\ [][Next]_vars
Ids(P(_)) == {comps[i].id : i \in {j \in 1..Len(comps) : P(comps[j])}}
IndexMatches == \A x \in Slots : /\ mast[x] = Ids(LAMBDA c : c.t = x[1] /\ c.u = x[2] /\ c.r = 0)
                                 /\ over[x] = Ids(LAMBDA c : c.t = x[1] /\ c.u = x[2] /\ c.r # 0)
Renum(S) == {IF \E i \in 1..Len(comps) : comps[i].id = n THEN CHOOSE i \in 1..Len(comps) : comps[i].id = n ELSE 0 : n \in S}
View == <<[i \in 1..Len(comps) |-> <<comps[i].t, comps[i].u, comps[i].r>>], [x \in Slots |-> Renum(mast[x])], [x \in Slots |-> Renum(over[x])], Len(hist)>>
=============================================================================
