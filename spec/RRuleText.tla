----------------------------- MODULE RRuleText -----------------------------
(***************************************************************************)
(* The RECUR value grammar of RFC 5545 3.3.10 and its jCal form, read into *)
(* the rule records of Recur.tla.  Parse gives [k: "ok"|"reject"|"free"]:  *)
(* "reject" for the classes of errors the property names (unknown parts or *)
(* names, numbers out of range, repeated BY parts, COUNT with UNTIL),      *)
(* "free" where the property does not say.                                 *)
(***************************************************************************)
EXTENDS Recur, Txt
Freqs == {"SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"}
WdNo == [SU |-> 0, MO |-> 1, TU |-> 2, WE |-> 3, TH |-> 4, FR |-> 5, SA |-> 6]
NumRange(name) == CASE name = "BYSECOND" -> <<0, 60, FALSE>> [] name = "BYMINUTE" -> <<0, 59, FALSE>> [] name = "BYHOUR" -> <<0, 23, FALSE>>
                 [] name = "BYMONTHDAY" -> <<1, 31, TRUE>> [] name = "BYYEARDAY" -> <<1, 366, TRUE>> [] name = "BYWEEKNO" -> <<1, 53, TRUE>>
                 [] name = "BYMONTH" -> <<1, 12, FALSE>> [] OTHER -> <<1, 366, TRUE>>
ByNames == {"BYSECOND", "BYMINUTE", "BYHOUR", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS"}
Field(name) == CASE name = "BYSECOND" -> "bysec" [] name = "BYMINUTE" -> "bymin" [] name = "BYHOUR" -> "byhour" [] name = "BYMONTHDAY" -> "bymd"
                 [] name = "BYYEARDAY" -> "byyd" [] name = "BYWEEKNO" -> "bywk" [] name = "BYMONTH" -> "bymon" [] OTHER -> "bysp"
AbsV(n) == IF n < 0 THEN -n ELSE n
NumOk(t, rg) == IsInt(t) /\ LET n == IntOf(t) IN /\ AbsV(n) >= rg[1] /\ AbsV(n) <= rg[2] /\ (~rg[3] => n >= 0)
\* BYDAY element: optional signed number 1..53 and a weekday
DayTok(t) == IF Len(t) < 2 THEN [ok |-> FALSE]
             ELSE LET w == From(t, Len(t) - 1)
                      p == SubSeq(t, 1, Len(t) - 2)
                  IN IF w \notin DOMAIN WdNo THEN [ok |-> FALSE]
                     ELSE IF p = "" THEN [ok |-> TRUE, v |-> <<0, WdNo[w]>>]
                     ELSE IF NumOk(p, <<1, 53, TRUE>>) THEN [ok |-> TRUE, v |-> <<IntOf(p), WdNo[w]>>]
                     ELSE [ok |-> FALSE]
\* UNTIL: YYYYMMDD or YYYYMMDDTHHMMSS[Z]
DateRec(t) == [y |-> NatOf(SubSeq(t, 1, 4)), m |-> NatOf(SubSeq(t, 5, 6)), d |-> NatOf(SubSeq(t, 7, 8)), h |-> 0, n |-> 0, s |-> 0, do |-> 1, tz |-> "F"]
UntilTok(t) ==
  IF Len(t) = 8 /\ IsNum(t) THEN [ok |-> TRUE, v |-> DateRec(t)]
  ELSE IF Len(t) \in {15, 16} /\ IsNum(SubSeq(t, 1, 8)) /\ Ch(t, 9) = "T" /\ IsNum(SubSeq(t, 10, 15)) /\ (Len(t) = 16 => Ch(t, 16) = "Z")
       THEN [ok |-> TRUE, v |-> [DateRec(t) EXCEPT !.do = 0, !.h = NatOf(SubSeq(t, 10, 11)), !.n = NatOf(SubSeq(t, 12, 13)), !.s = NatOf(SubSeq(t, 14, 15)),
                                                   !.tz = IF Len(t) = 16 THEN "Z" ELSE "F"]]
  ELSE [ok |-> FALSE]
Blank == [freq |-> "", interval |-> 1, count |-> 0, hasuntil |-> 0, until |-> [do |-> 1], wkst |-> 1, bysec |-> <<>>, bymin |-> <<>>, byhour |-> <<>>,
          byday |-> <<>>, bymd |-> <<>>, byyd |-> <<>>, bywk |-> <<>>, bymon |-> <<>>, bysp |-> <<>>]
Reject == [k |-> "reject"]
Free == [k |-> "free"]
One(st, name, val) ==        \* st: [k, r, seen]
  LET r == st.r
      again == name \in st.seen
      ok(r2) == [k |-> "ok", r |-> r2, seen |-> st.seen \cup {name}]
  IN CASE name \in ByNames ->
            IF again THEN Reject
            ELSE LET q == Split(val, ",") rg == NumRange(name) IN
                 IF \E i \in 1..Len(q) : ~NumOk(q[i], rg) THEN Reject
                 ELSE ok([r EXCEPT ![Field(name)] = [i \in 1..Len(q) |-> IntOf(q[i])]])
       [] name = "BYDAY" ->
            IF again THEN Reject
            ELSE LET q == Split(val, ",") IN
                 IF \E i \in 1..Len(q) : ~DayTok(q[i]).ok THEN Reject
                 ELSE ok([r EXCEPT !.byday = [i \in 1..Len(q) |-> DayTok(q[i]).v]])
       [] name = "FREQ" -> IF val \notin Freqs THEN Reject ELSE IF again THEN Free ELSE ok([r EXCEPT !.freq = val])
       [] name = "COUNT" -> IF ~IsInt(val) \/ IntOf(val) < 1 \/ "UNTIL" \in st.seen THEN Reject ELSE IF again THEN Free ELSE ok([r EXCEPT !.count = IntOf(val)])
       [] name = "INTERVAL" -> IF ~IsInt(val) \/ IntOf(val) < 1 THEN Reject ELSE IF again THEN Free ELSE ok([r EXCEPT !.interval = IntOf(val)])
       [] name = "UNTIL" -> IF "COUNT" \in st.seen \/ ~UntilTok(val).ok THEN Reject ELSE IF again THEN Free
                            ELSE ok([r EXCEPT !.hasuntil = 1, !.until = UntilTok(val).v])
       [] name = "WKST" -> IF val \notin DOMAIN WdNo THEN Reject ELSE IF again THEN Free ELSE ok([r EXCEPT !.wkst = WdNo[val]])
       [] OTHER -> Reject
RECURSIVE Parts(_, _)
Parts(q, st) ==
  IF Len(q) = 0 THEN IF "FREQ" \in st.seen THEN st ELSE Free
  ELSE LET t == q[1] p == Pos(t, "=") IN
       IF Occ(t, "=") # 1 THEN Reject
       ELSE LET s2 == One(st, SubSeq(t, 1, p - 1), From(t, p + 1))
            IN IF s2.k = "reject" THEN Reject
               ELSE IF s2.k = "free" THEN (IF Parts(Tail(q), [st EXCEPT !.seen = @ \cup {SubSeq(t, 1, p - 1)}]).k = "reject" THEN Reject ELSE Free)
               ELSE Parts(Tail(q), s2)
Parse(t) == Parts(Split(t, ";"), [k |-> "ok", r |-> Blank, seen |-> {}])
\* two rules are the same when all parts are, BY parts as sets
RuleKey(r) == [f |-> r.freq, i |-> r.interval, c |-> r.count, hu |-> r.hasuntil, u |-> IF r.hasuntil = 1 THEN r.until ELSE [do |-> 1], w |-> r.wkst,
            by |-> <<Elems(r.bysec), Elems(r.bymin), Elems(r.byhour), Elems(r.byday), Elems(r.bymd), Elems(r.byyd), Elems(r.bywk), Elems(r.bymon), Elems(r.bysp)>>]
\* the writer's side: one canonical text, used to check that Parse inverts it
Dig2(n) == LET d == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">> IN d[(n \div 10) + 1] \o d[(n % 10) + 1]
=============================================================================
