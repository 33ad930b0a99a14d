------------------------------ MODULE Harness ------------------------------
(***************************************************************************)
(* Trace-validation harness shared by every *Trace module.                 *)
(*                                                                         *)
(* TRACE is a JSON array of sessions [id, init, events]; each event is a   *)
(* call on the real code with its arguments and what was observed.  The    *)
(* trace module supplies InitSt (initial abstract state of a session) and  *)
(* Step (the abstract transition for one event).  Step is total: it        *)
(* returns [st, bad, exp] where bad names the violated clause ("" if none) *)
(* and exp is what the specification prescribes.  Every session gets       *)
(* exactly one verdict line in OUT ("done" or "stop"), and one "bad" line  *)
(* per rejected event.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV

CONSTANTS InitSt(_), Step(_, _)
VARIABLES hsid, hidx, hst, hfin

hvars == <<hsid, hidx, hst, hfin>>

Sessions == JsonDeserialize(IOEnv.TRACE)
OutFile == IOEnv.OUT

Emit(r) == CSVWrite("%1$s", <<ToJson(r)>>, OutFile)

HInit == /\ hsid \in 1..Len(Sessions)
         /\ hidx = 1
         /\ hst = InitSt(Sessions[hsid])
         /\ hfin = FALSE

HNext == /\ ~hfin
         /\ IF hidx > Len(Sessions[hsid].events)
            THEN /\ hfin' = TRUE
                 /\ Emit([k |-> "done", sid |-> hsid, n |-> hidx - 1])
                 /\ UNCHANGED <<hsid, hidx, hst>>
            ELSE LET e == Sessions[hsid].events[hidx]
                     r == Step(hst, e)
                 IN  /\ hsid' = hsid
                     /\ hidx' = hidx + 1
                     /\ hst' = r.st
                     /\ IF r.bad = ""
                        THEN IF "stop" \in DOMAIN r /\ r.stop     \* left the domain of the property: the rest is not judged
                             THEN hfin' = TRUE /\ Emit([k |-> "done", sid |-> hsid, n |-> hidx])
                             ELSE hfin' = FALSE
                        ELSE /\ Emit([k |-> "bad", sid |-> hsid, i |-> hidx, clause |-> r.bad, exp |-> r.exp])
                             /\ IF "stop" \in DOMAIN r /\ r.stop
                                THEN hfin' = TRUE /\ Emit([k |-> "stop", sid |-> hsid, n |-> hidx])
                                ELSE hfin' = FALSE

HSpec == HInit /\ [][HNext]_hvars

OK(s) == [st |-> s, bad |-> "", exp |-> ""]
OKStop(s) == [st |-> s, bad |-> "", exp |-> "", stop |-> TRUE]
Bad(s, clause, e) == [st |-> s, bad |-> clause, exp |-> e]
BadStop(s, clause, e) == [st |-> s, bad |-> clause, exp |-> e, stop |-> TRUE]
Check(s, cond, clause, e) == IF cond THEN OK(s) ELSE Bad(s, clause, e)
=============================================================================
