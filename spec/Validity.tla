------------------------------- MODULE Validity -------------------------------
(***************************************************************************)
(* The rules a calendar or card must keep (RFC 5545, 7953, 2426 and the    *)
(* VPOLL draft), what breaks them, and what repair does about it.          *)
(*                                                                         *)
(* A node is [t |-> type, a |-> alarm action, p |-> properties, c |->      *)
(* nodes].  A property is [n |-> name, k |-> kind of value, i |-> integer, *)
(* utc |-> 1 if a UTC time, s |-> text in lower case, ud, ut, uz |-> date, *)
(* time (-1 for a date), zone of UNTIL, of the start: its UTC time, line]. *)
(* A problem is <<type, names>>.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

One(t, a) ==
  CASE t = "VCALENDAR" -> <<"PRODID", "VERSION">>
    [] t \in {"VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VAVAILABILITY"} -> <<"DTSTAMP", "UID">>
    [] t = "AVAILABLE" -> <<"DTSTAMP", "DTSTART", "UID">>
    [] t = "VPOLL" -> <<"DTSTAMP", "UID", "ORGANIZER">>
    [] t = "VVOTER" -> <<"VOTER">>
    [] t = "VTIMEZONE" -> <<"TZID">>
    [] t \in {"STANDARD", "DAYLIGHT"} -> <<"DTSTART", "TZOFFSETTO", "TZOFFSETFROM">>
    [] t = "VALARM" -> IF a = "none" THEN <<"ACTION">> ELSE IF a = "uri" THEN <<"ACTION", "TRIGGER", "URL">> ELSE <<"ACTION", "TRIGGER">>
    [] t = "VCARD" -> <<"VERSION", "N">>
    [] OTHER -> <<>>
AtMostOne(t, a) ==
  CASE t = "VCALENDAR" -> <<"CALSCALE", "METHOD">>
    [] t = "VEVENT" -> <<"CLASS", "CREATED", "DESCRIPTION", "GEO", "LAST-MODIFIED", "LOCATION", "ORGANIZER", "PRIORITY", "SEQUENCE", "SUMMARY", "TRANSP", "URL", "RECURRENCE-ID", "RRULE",
                         "DTEND", "DURATION">>
    [] t = "VTODO" -> <<"CLASS", "COMPLETED", "CREATED", "DESCRIPTION", "DTSTART", "GEO", "LAST-MODIFIED", "LOCATION", "ORGANIZER", "PERCENT-COMPLETE", "PRIORITY", "RECURRENCE-ID", "SEQUENCE",
                        "SUMMARY", "URL", "RRULE", "DUE", "DURATION">>
    [] t = "VJOURNAL" -> <<"CLASS", "CREATED", "DTSTART", "LAST-MODIFIED", "ORGANIZER", "RECURRENCE-ID", "SEQUENCE", "SUMMARY", "URL", "RRULE">>
    [] t = "VFREEBUSY" -> <<"CONTACT", "DTSTART", "DTEND", "ORGANIZER", "URL">>
    [] t = "VAVAILABILITY" -> <<"BUSYTYPE", "CLASS", "CREATED", "DESCRIPTION", "DTSTART", "LAST-MODIFIED", "ORGANIZER", "SEQUENCE", "SUMMARY", "URL", "RECURRENCE-ID", "DTEND", "DURATION">>
    [] t = "AVAILABLE" -> <<"CREATED", "DESCRIPTION", "GEO", "LAST-MODIFIED", "LOCATION", "RECURRENCE-ID", "RRULE", "SEQUENCE", "SUMMARY", "DTEND", "DURATION">>
    [] t = "VPOLL" -> <<"ACCEPT-RESPONSE", "CLASS", "CREATED", "COMPLETED", "DESCRIPTION", "DTSTART", "DTEND", "DURATION", "LAST-MODIFIED", "POLL-MODE", "POLL-PROPERTIES", "POLL-WINNER", "PRIORITY",
                        "SEQUENCE", "STATUS", "SUMMARY", "URL">>
    [] t = "VVOTER" -> <<"CREATED", "DESCRIPTION", "LAST-MODIFIED", "SUMMARY", "URL">>
    [] t = "VOTE" -> <<"POLL-ITEM-ID", "RESPONSE">>
    [] t = "VTIMEZONE" -> <<"LAST-MODIFIED", "TZURL">>
    [] t \in {"STANDARD", "DAYLIGHT"} -> <<"RRULE">>
    [] t = "VALARM" -> IF a = "none" THEN <<>> ELSE IF a = "audio" THEN <<"DURATION", "REPEAT", "ATTACH", "ACKNOWLEDGED">> ELSE <<"DURATION", "REPEAT", "ACKNOWLEDGED">>
    [] t = "VCARD" -> <<"BDAY", "PRODID", "REV", "UID">>
    [] OTHER -> <<>>
AtLeastOne(t, a) == CASE t = "VALARM" /\ a = "email" -> <<"ATTENDEE">> [] t = "VCARD" -> <<"FN">> [] OTHER -> <<>>
\* required once, may be added empty
OneOrEmpty(t, a) == IF t # "VALARM" THEN <<>> ELSE IF a = "email" THEN <<"DESCRIPTION", "SUMMARY">> ELSE IF a = "display" THEN <<"DESCRIPTION">> ELSE <<>>
Repeating(t) == t \in {"VEVENT", "VTODO", "VJOURNAL", "AVAILABLE"}

Named(nd, n) == SelectSeq(nd.p, LAMBDA x : x.n = n)
Count(nd, n) == Len(Named(nd, n))
Has(nd, n) == Count(nd, n) > 0
Without(nd, n) == [nd EXCEPT !.p = SelectSeq(nd.p, LAMBDA x : x.n # n)]
Bare(n, s, line) == [n |-> n, k |-> "text", i |-> 0, utc |-> 0, s |-> s, ud |-> 0, ut |-> 0, uz |-> 0, line |-> line]
\* is the value one the property may have
Good(card, x) ==
  IF card
  THEN CASE x.n = "VERSION" -> x.k = "text" /\ x.s = "3.0"
         [] x.n = "PROFILE" -> x.k = "text" /\ x.s = "vcard"
         [] OTHER -> TRUE
  ELSE CASE x.n = "VERSION" -> x.k = "text" /\ x.s = "2.0"
         [] x.n = "CALSCALE" -> x.k = "text" /\ x.s = "gregorian"
         [] x.n = "PERCENT-COMPLETE" -> x.k = "int" /\ x.i >= 0 /\ x.i <= 100
         [] x.n = "PRIORITY" -> x.k = "int" /\ x.i >= 0 /\ x.i <= 9
         [] x.n \in {"REPEAT", "SEQUENCE"} -> x.k = "int" /\ x.i >= 0
         [] x.n \in {"COMPLETED", "CREATED", "DTSTAMP", "LAST-MODIFIED", "ACKNOWLEDGED"} -> x.k = "dt" /\ x.utc = 1
         [] OTHER -> TRUE

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Each(q, F(_)) == Cat([i \in DOMAIN q |-> F(q[i])])
P(nd, names) == <<<<nd.t, names>>>>
\* what is wrong and cannot be repaired, in the node alone
CountRules(nd) == Each(One(nd.t, nd.a), LAMBDA n : IF Count(nd, n) # 1 THEN P(nd, n) ELSE <<>>)
               \o Each(OneOrEmpty(nd.t, nd.a), LAMBDA n : IF Count(nd, n) > 1 THEN P(nd, n) ELSE <<>>)
               \o Each(AtMostOne(nd.t, nd.a), LAMBDA n : IF Count(nd, n) > 1 THEN P(nd, n) ELSE <<>>)
               \o Each(AtLeastOne(nd.t, nd.a), LAMBDA n : IF Count(nd, n) = 0 THEN P(nd, n) ELSE <<>>)
ValueRules(nd, card) == Each(nd.p, LAMBDA x : IF Good(card, x) THEN <<>> ELSE P(nd, x.n))
\* rules between properties and with the surroundings; method: the parent (if any) has a METHOD
OtherRules(nd, parent, method) ==
     (IF nd.t = "VEVENT" /\ parent /\ ~method /\ ~Has(nd, "DTSTART") THEN P(nd, "DTSTART") ELSE <<>>)
  \o (IF nd.t = "VTIMEZONE" /\ \A i \in DOMAIN nd.c : nd.c[i].t \notin {"STANDARD", "DAYLIGHT"} THEN P(nd, "DAYLIGHT,STANDARD") ELSE <<>>)
  \o (IF nd.t = "VALARM" /\ Has(nd, "DURATION") # Has(nd, "REPEAT") THEN P(nd, "DURATION,REPEAT") ELSE <<>>)
StartlessDuration(nd) == IF nd.t = "VTODO" /\ Has(nd, "DURATION") /\ ~Has(nd, "DTSTART") THEN P(nd, "DTSTART,DURATION") ELSE <<>>
BothEnds(nd) == CASE nd.t \in {"VEVENT", "VAVAILABILITY", "AVAILABLE"} /\ Has(nd, "DTEND") /\ Has(nd, "DURATION") -> P(nd, "DTEND,DURATION")
                  [] nd.t = "VTODO" /\ Has(nd, "DUE") /\ Has(nd, "DURATION") -> P(nd, "DUE,DURATION")
                  [] OTHER -> <<>>
Statuses(nd) == IF Repeating(nd.t) /\ Count(nd, "STATUS") > 1 THEN P(nd, "STATUS") ELSE <<>>
StatusFix(nd) == \E i \in DOMAIN nd.p : nd.p[i].n = "STATUS" /\ nd.p[i].s = "cancelled"
Empties(nd) == Each(OneOrEmpty(nd.t, nd.a), LAMBDA n : IF Count(nd, n) = 0 THEN P(nd, n) ELSE <<>>)
OddUntil(nd, x) == /\ Repeating(nd.t) /\ Has(nd, "DTSTART") /\ Named(nd, "DTSTART")[1].k = "dt"
                   /\ x.n = "RRULE" /\ x.ud # 0 /\ (x.ut = -1) # (Named(nd, "DTSTART")[1].ut = -1)
Untils(nd) == Each(nd.p, LAMBDA x : IF OddUntil(nd, x) THEN P(nd, "DTSTART,UNTIL") ELSE <<>>)

\* the node repaired (not what it contains)
Mend(nd) ==
  LET a == IF Statuses(nd) # <<>> /\ StatusFix(nd) THEN [Without(nd, "STATUS") EXCEPT !.p = Append(@, Bare("STATUS", "cancelled", "STATUS:CANCELLED"))] ELSE nd
      b == [a EXCEPT !.p = @ \o Each(OneOrEmpty(nd.t, nd.a), LAMBDA n : IF Count(nd, n) = 0 THEN <<Bare(n, "", n \o ":")>> ELSE <<>>)]
      c == IF BothEnds(nd) = <<>> THEN b ELSE IF nd.t = "VTODO" THEN Without(b, "DURATION") ELSE Without(b, "DTEND")
  IN [c EXCEPT !.p = [i \in DOMAIN c.p |-> IF OddUntil(nd, c.p[i])
                                           THEN LET s == Named(nd, "DTSTART")[1] IN [c.p[i] EXCEPT !.ut = s.ut, !.uz = IF s.ut = -1 THEN 0 ELSE 1]
                                           ELSE c.p[i]]]
\* [nd, fixed, unfixed] of validation with or without repair
RECURSIVE Validate(_, _, _, _, _)
Validate(nd, fix, parent, method, card) ==
  LET subs == [i \in DOMAIN nd.c |-> Validate(nd.c[i], fix, TRUE, Has(nd, "METHOD"), card)]
      new == IF fix THEN Mend(nd) ELSE nd
      canfix == Empties(nd) \o (IF StatusFix(nd) THEN Statuses(nd) ELSE <<>>) \o BothEnds(nd) \o Untils(nd)
      cannot == CountRules(nd) \o (IF StatusFix(nd) THEN <<>> ELSE Statuses(nd)) \o ValueRules(nd, card) \o OtherRules(nd, parent, method) \o StartlessDuration(new)
      cs == [i \in DOMAIN subs |-> subs[i].nd]
  IN [nd |-> [new EXCEPT !.c = cs],
      fixed |-> (IF fix THEN canfix ELSE <<>>) \o Cat([i \in DOMAIN subs |-> subs[i].fixed]),
      unfixed |-> (IF fix THEN <<>> ELSE canfix) \o cannot \o Cat([i \in DOMAIN subs |-> subs[i].unfixed])]

SetOf(q) == {q[i] : i \in DOMAIN q}
BagOf(q) == [x \in SetOf(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
SameBag(a, b) == Len(a) = Len(b) /\ BagOf(a) = BagOf(b)
RECURSIVE Canon(_)
Canon(nd) == <<nd.t, BagOf([i \in DOMAIN nd.p |-> <<nd.p[i].line, nd.p[i].ud, nd.p[i].ut, nd.p[i].uz>>]), BagOf([i \in DOMAIN nd.c |-> Canon(nd.c[i])])>>
=============================================================================
