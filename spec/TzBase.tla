------------------------------- MODULE TzBase -------------------------------
(***************************************************************************)
(* The store of timezone definitions as its users see it: a partial        *)
(* function from ids to definitions (what was loaded or added), backed by  *)
(* the standard definitions of a directory.  Looking up never changes it.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
NoTz == [def |-> 0, std |-> 0]
\* St: [ids known -> [def, std]], Std: [ids in the directory -> def]
Look(store, Std, id) == IF id \in DOMAIN store THEN store[id] ELSE IF id \in DOMAIN Std THEN [def |-> Std[id], std |-> 1] ELSE NoTz
Put(store, id, def) == (id :> [def |-> def, std |-> 0]) @@ store
RECURSIVE LoadAll(_, _, _)
LoadAll(store, Std, tzs) == IF tzs = <<>> THEN store
                            ELSE LoadAll(IF Look(store, Std, tzs[1][1]).def = 0 THEN Put(store, tzs[1][1], tzs[1][2]) ELSE store, Std, Tail(tzs))
\* what a calendar looks like when standard definitions have been stripped, and when missing ones have been added
Stripped(store, Std, tzs) == SelectSeq(tzs, LAMBDA z : Look(store, Std, z[1]).std = 0)
Missing(store, Std, tzs, refs, mode) ==
  IF mode = 2 THEN {}
  ELSE {<<id, Look(store, Std, id).def>> : id \in {r \in refs : /\ \A i \in DOMAIN tzs : tzs[i][1] # r
                                                               /\ Look(store, Std, r).def # 0
                                                               /\ ~(mode = 1 /\ Look(store, Std, r).std = 1)}}
=============================================================================
