------------------------------- MODULE ValidMC -------------------------------
(***************************************************************************)
(* Repair, checked for every small component: it repairs what it says, a   *)
(* second repair has nothing left to do, nothing it could not repair is    *)
(* lost, and nothing changes where nothing is wrong.                       *)
(***************************************************************************)
EXTENDS Validity
CONSTANTS Types, MaxCount
VARIABLES nd, meth
Prop(n, s, ut) == [Bare(n, s, n \o s) EXCEPT !.k = IF n \in {"DTSTART", "DTSTAMP", "DTEND", "DUE"} THEN "dt" ELSE IF n \in {"PRIORITY", "REPEAT"} THEN "int" ELSE "text",
                                            !.utc = IF n = "DTSTAMP" THEN 1 ELSE 0, !.ut = ut, !.ud = IF n = "RRULE" THEN 20200101 ELSE 0]
Names == {"DTSTART", "DTEND", "DUE", "DURATION", "REPEAT", "DESCRIPTION", "SUMMARY", "ATTENDEE"}
Times(n, k) == [i \in 1..k |-> Prop(n, "", 100)]
Init == /\ meth \in BOOLEAN
        /\ \E t \in Types, a \in {"display", "email", "audio", "none"}, f \in [Names -> 0..MaxCount], st \in {<<>>, <<"confirmed">>, <<"cancelled">>, <<"confirmed", "cancelled">>, <<"a", "b">>},
              u \in {-2, -1, 100}, ds \in {-1, 100} :
              /\ t # "VALARM" => a = "display"
              /\ t = "VALARM" => f["DTEND"] = 0 /\ f["DUE"] = 0 /\ f["DTSTART"] = 0 /\ st = <<>> /\ u = -2 /\ ds = 100
              /\ t # "VALARM" => f["REPEAT"] = 0 /\ f["ATTENDEE"] = 0 /\ f["DESCRIPTION"] = 0 /\ f["SUMMARY"] = 0
              /\ f["DTSTART"] = 0 => ds = 100
              /\ f["DTSTART"] <= 1
              /\ nd = [t |-> t, a |-> IF t = "VALARM" THEN a ELSE "", c |-> <<>>,
                       p |-> <<Prop("UID", "", 0), Prop("DTSTAMP", "", 100)>> \o [i \in 1..f["DTSTART"] |-> Prop("DTSTART", "", ds)] \o Times("DTEND", f["DTEND"]) \o Times("DUE", f["DUE"])
                             \o Times("DURATION", f["DURATION"]) \o Times("REPEAT", f["REPEAT"]) \o Times("DESCRIPTION", f["DESCRIPTION"]) \o Times("SUMMARY", f["SUMMARY"])
                             \o Times("ATTENDEE", f["ATTENDEE"]) \o [i \in DOMAIN st |-> Prop("STATUS", st[i], 0)] \o (IF u = -2 THEN <<>> ELSE <<Prop("RRULE", "", u)>>)]
Next == UNCHANGED <<nd, meth>>
Spec == Init /\ [][Next]_<<nd, meth>>
V(x, fix) == Validate(x, fix, TRUE, meth, FALSE)
Repair == LET a == V(nd, FALSE)
              b == V(nd, TRUE)
              c == V(b.nd, FALSE)
              d == V(b.nd, TRUE)
          IN /\ a.fixed = <<>> /\ a.nd = nd
             /\ c.unfixed = d.unfixed
             /\ SetOf(c.unfixed) \subseteq SetOf(b.unfixed)        \* what was repaired is gone, and what is left was reported
             /\ \A x \in SetOf(b.unfixed) \ SetOf(c.unfixed) : x[2] \in {"DTEND", "DURATION"}     \* too many of what repair then took away
             /\ SetOf(a.unfixed) \ SetOf(b.fixed) \subseteq SetOf(b.unfixed) \cup {<<"VTODO", "DTSTART,DURATION">>}
             /\ d.fixed = <<>> /\ d.nd = b.nd                \* nothing is left to repair
             /\ (a.unfixed = <<>> => b.nd = nd)
             /\ (b.fixed = <<>> => b.nd = nd)
             /\ \A i \in DOMAIN b.fixed : \E j \in DOMAIN a.unfixed : a.unfixed[j] = b.fixed[i]
=============================================================================
