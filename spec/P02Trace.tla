------------------------------ MODULE P02Trace ------------------------------
(***************************************************************************)
(* Date-time values as objects with a history.  The abstract state of a    *)
(* slot is only its fields and its zone; the instant is a function of      *)
(* them, whatever was asked or copied before.  Zones are declared in the   *)
(* session (Tz.tla).  Local times that occur twice or never have no        *)
(* instant here and are not judged.                                        *)
(***************************************************************************)
EXTENDS Tz, Harness, Txt
InitSt_(s) == [z |-> [i \in 1..Len(s.init.zones) |-> [name |-> s.init.zones[i].name, q |-> TSeq(Trans(s.init.zones[i].def, s.init.zones[i].hi))]],
               s |-> [i \in 1..4 |-> [do |-> 0, tz |-> "NONE"]]]
ZoneQ(st, tz) == LET i == CHOOSE k \in 1..Len(st.z) : st.z[k].name = tz IN st.z[i].q
IsZone(st, tz) == \E k \in 1..Len(st.z) : st.z[k].name = tz
FixOf(tz) == IF StartsWith(tz, "O") THEN IntOf(From(tz, 2)) ELSE 0
Amb(st, r) == r.do = 0 /\ IsZone(st, r.tz) /\ LET q == ZoneQ(st, r.tz) IN InGap(q, P(r)) \/ InFold(q, P(r)) \/ At(q, P(r), FALSE) = 0
OffL(st, r) == IF r.do = 1 \/ ~IsZone(st, r.tz) THEN FixOf(r.tz) ELSE LET q == ZoneQ(st, r.tz) IN q[At(q, P(r), FALSE)].to
Inst(st, r) == Shift(P(r), -OffL(st, r))
FromP(p, r, tz) == LET c == WithDay(r, p[1]) IN [c EXCEPT !.h = p[2] \div 3600, !.n = (p[2] \div 60) % 60, !.s = p[2] % 60, !.tz = tz]
Conv(st, r, tz) ==      \* the same instant in zone tz
  IF r.tz = tz THEN r
  ELSE LET u == Inst(st, r)
           o == IF IsZone(st, tz) THEN LET q == ZoneQ(st, tz) IN q[At(q, u, TRUE)].to ELSE FixOf(tz)
       IN FromP(Shift(u, o), r, tz)
Kind(r) == IF r.do = 1 THEN "D" ELSE IF r.tz = "F" THEN "F" ELSE "A"
Mixed(a, b) == {Kind(a), Kind(b)} = {"A", "F"}
Fld(f) == f          \* y m d h n s
Put(st, i, r, e, clause) ==    \* slot i becomes r, and looks like it
  IF ~SameFields(e.o, r) THEN BadStop(st, clause, r) ELSE OK([st EXCEPT !.s[i] = r])
Step_(st, e) ==
  IF e.ok = 0 THEN BadStop(st, "operation-fails", e.exc)
  ELSE CASE e.op = "new" -> Put(st, e.i, e.dt, e, "new")
    [] e.op = "set" -> Put(st, e.i, [st.s[e.i] EXCEPT ![e.f] = e.v], e, "set-" \o e.f)
    [] e.op = "ymd" -> Put(st, e.i, [st.s[e.i] EXCEPT !.y = e.y, !.m = e.m, !.d = e.d], e, "set-date")
    [] e.op = "hms" -> Put(st, e.i, [st.s[e.i] EXCEPT !.h = e.h, !.n = e.n, !.s = e.s], e, "set-time")
    [] e.op = "off" -> Put(st, e.i, Norm([st.s[e.i] EXCEPT ![e.f] = @ + e.v]), e, "offset-" \o e.f)
    [] e.op = "add" -> LET r == st.s[e.i] IN Put(st, e.j, Norm([r EXCEPT !.d = r.d + e.days, !.s = r.s + e.secs]), e, "add")
    [] e.op = "dup" -> Put(st, e.j, st.s[e.i], e, "copy")
    [] e.op = "relabel" -> Put(st, e.i, [st.s[e.i] EXCEPT !.tz = e.tz], e, "set-timezone")
    [] e.op \in {"adj", "adjcopy"} ->
         IF Amb(st, st.s[e.i]) THEN OKStop(st) ELSE Put(st, IF e.op = "adj" THEN e.i ELSE e.j, Conv(st, st.s[e.i], e.tz), e, "to-timezone")
    [] e.op \in {"utc", "duputc"} ->
         IF Amb(st, st.s[e.i]) THEN OKStop(st) ELSE Put(st, IF e.op = "utc" THEN e.i ELSE e.j, Conv(st, st.s[e.i], "Z"), e, "to-utc")
    [] e.op = "posix" -> IF Amb(st, st.s[e.i]) THEN OK(st) ELSE Check(st, e.p = Inst(st, st.s[e.i]), "instant", Inst(st, st.s[e.i]))
    [] e.op = "look" -> Check(st, SameFields(e.o, st.s[e.i]), "fields", st.s[e.i])
    [] e.op = "offset" -> IF Amb(st, st.s[e.i]) THEN OK(st) ELSE Check(st, e.v = OffL(st, st.s[e.i]), "offset", OffL(st, st.s[e.i]))
    [] e.op = "cmp" ->
         LET a == st.s[e.i] b == st.s[e.j] IN
         IF Mixed(a, b) THEN    \* a floating one takes the zone of the other: the order is that of the local times
              LET c == PCmp(P(a), P(b)) IN Check(st, e.c = <<c = 0, c # 0, c < 0, c > 0, c <= 0, c >= 0>>, "order", c)
         ELSE IF Kind(a) # Kind(b) \/ Amb(st, a) \/ Amb(st, b) THEN OK(st)
         ELSE LET c == PCmp(Inst(st, a), Inst(st, b)) IN
              IF e.c # <<c = 0, c # 0, c < 0, c > 0, c <= 0, c >= 0>> THEN Bad(st, "order", c)
              ELSE IF c = 0 /\ ~e.hash THEN Bad(st, "hash", TRUE) ELSE OK(st)
    [] e.op = "diff" ->
         LET a0 == st.s[e.i] b0 == st.s[e.j]
             a == IF Mixed(a0, b0) /\ Kind(a0) = "F" THEN [a0 EXCEPT !.tz = b0.tz] ELSE a0
             b == IF Mixed(a0, b0) /\ Kind(b0) = "F" THEN [b0 EXCEPT !.tz = a0.tz] ELSE b0 IN
         IF Kind(a) # Kind(b) \/ Amb(st, a) \/ Amb(st, b) THEN OK(st)
         ELSE IF e.p # PSub(Inst(st, a), Inst(st, b)) THEN Bad(st, "difference", PSub(Inst(st, a), Inst(st, b)))
         ELSE IF b0.tz = a0.tz /\ ~IsZone(st, b.tz) /\ ~SameFields(e.o, a) THEN Bad(st, "difference-added-back", a)
         ELSE OK(st)
    [] e.op = "sort" ->
         LET k == [x \in 1..Len(e.is) |-> st.s[e.is[x]]] IN
         IF \E x \in 1..Len(k) : Amb(st, k[x]) \/ Kind(k[x]) # Kind(k[1]) THEN OK(st)
         ELSE Check(st, \A x \in 1..Len(e.o) - 1 : PLeq(Inst(st, e.o[x]), Inst(st, e.o[x + 1])), "sort", "by instant")
=============================================================================
