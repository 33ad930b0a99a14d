-------------------------------- MODULE VCard --------------------------------
(***************************************************************************)
(* A stream of vCards (RFC 2426): the machine that splits it into cards,   *)
(* and what a card means: the bag of its properties, each with its group,  *)
(* name, parameters, the value type in force and the value by meaning;     *)
(* the components of N and ADR keep their positions, those of ORG their    *)
(* order.  All canonical forms are tuples of octet sequences.              *)
(***************************************************************************)
EXTENDS ICalText, VCardTypes
DOT == 46
DASH == 45
BBegin == <<66,69,71,73,78,58>>
EEnd == <<69,78,68,58>>
\* --- content line: parameters may lack a value (vCard 2.1), BASE64 alone stands for ENCODING=B
RECURSIVE LexC(_, _, _, _, _)
LexC(s, i, name, acc, strip) ==
  IF i > Len(s) THEN LexFail
  ELSE IF s[i] = COLON THEN [ok |-> TRUE, name |-> name, pars |-> acc, val |-> IF strip THEN SelectSeq(FromI(s, i + 1), LAMBDA c : c # SP) ELSE FromI(s, i + 1)]
  ELSE IF s[i] # SEMI THEN LexFail
  ELSE LET e == FirstIn(s, i + 1, {EQ, SEMI, COLON}) IN
       IF e = 0 \/ e = i + 1 THEN LexFail
       ELSE LET n == SubSeq(s, i + 1, e - 1) IN
            IF s[e] = EQ THEN LET r == LexPVals(s, e + 1, <<>>) IN IF ~r.ok THEN LexFail ELSE LexC(s, r.nx, name, Append(acc, [n |-> n, v |-> r.vs]), strip)
            ELSE IF Up(n) = V_BASE64 THEN LexC(s, e, name, Append(acc, [n |-> V_ENCODING, v |-> << <<66>> >>]), TRUE)
            ELSE LexC(s, e, name, Append(acc, [n |-> n, v |-> <<>>]), strip)
LexLine(s) == LET k == FirstIn(s, 1, {SEMI, COLON}) IN IF k <= 1 THEN LexFail ELSE LexC(s, k, SubSeq(s, 1, k - 1), <<>>, FALSE)
\* a property [g: group, n: name, ps: parameters, v: value]
CardProp(s) == LET r == LexLine(s) IN
  IF ~r.ok THEN [ok |-> FALSE]
  ELSE LET d == FirstIn(r.name, 1, {DOT}) IN
       IF d = 0 THEN [ok |-> TRUE, g |-> <<>>, n |-> r.name, ps |-> r.pars, v |-> r.val]
       ELSE [ok |-> TRUE, g |-> SubSeq(r.name, 1, d - 1), n |-> FromI(r.name, d + 1), ps |-> r.pars, v |-> r.val]
\* --- the machine: outside a card, inside one, or stuck
VStart == [in |-> FALSE, cur |-> <<>>, cards |-> <<>>, ok |-> TRUE, why |-> ""]
Stuck(m, w) == [m EXCEPT !.ok = FALSE, !.why = w]
HasVersion(c) == \E i \in 1..Len(c) : Up(c[i].n) = V_VERSION
VStep(m, l) ==
  IF ~m.ok THEN m
  ELSE IF l = <<>> THEN m
  ELSE IF ~m.in THEN IF l = BBegin \o V_VCARD THEN [m EXCEPT !.in = TRUE, !.cur = <<>>] ELSE Stuck(m, "outside a card")
  ELSE IF l = EEnd \o V_VCARD THEN IF HasVersion(m.cur) THEN [m EXCEPT !.in = FALSE, !.cards = Append(@, m.cur)] ELSE Stuck(m, "no VERSION")
  ELSE IF Starts(l, BBegin) \/ Starts(l, EEnd) THEN Stuck(m, "not nested")
  ELSE LET p == CardProp(l) IN
       IF ~p.ok THEN Stuck(m, "not a property")
       ELSE IF p.n = V_VERSION /\ p.v # V_30 THEN Stuck(m, "version")
       ELSE [m EXCEPT !.cur = Append(@, p)]
Stream(d) == LET m == FoldLeft(VStep, VStart, Unfold(d)) IN IF m.ok /\ m.in THEN Stuck(m, "cut off") ELSE m
\* --- meaning
BagV(q) == LET S == {q[i] : i \in 1..Len(q)} IN {<<x, Cardinality({i \in 1..Len(q) : q[i] = x})>> : x \in S}
VDefType(n) == IF n \in VPNames THEN VPTypeOf[n] ELSE "UNKNOWN"
VPar(p) == LET q == SelectSeq(p.ps, LAMBDA x : Up(x.n) = V_VALUE) IN IF q = <<>> THEN <<>> ELSE Up(q[1].v[1])
VType(p) == LET v == VPar(p) IN IF v = <<>> THEN VDefType(Up(p.n)) ELSE IF v \in VVNames THEN VVTypeOf[v] ELSE "OTHER"
TDecV(t) == LET r == TextDec(t, 2, 2) IN IF r.lone THEN Append(r.v, BSL) ELSE r.v
DecV(q) == [i \in 1..Len(q) |-> TDecV(q[i])]
Structured(v, max) == LET a == Items(v, SEMI) IN [i \in 1..max |-> IF i > Len(a) THEN << <<>> >> ELSE DecV(Items(a[i], COMMA))]
\* positions marked by a first octet, so that the meaning is a sequence of octet sequences
Marked(q) == Flat([i \in 1..Len(q) |-> [j \in 1..Len(q[i]) |-> <<i>> \o q[i][j]]])
\* the extended and the basic form of a date or an offset mean the same
T84 == 84
Basic(v) == LET t == FirstIn(v, 1, {T84})
                d == IF t = 0 THEN v ELSE SubSeq(v, 1, t - 1)
                r == IF t = 0 THEN <<>> ELSE FromI(v, t)
            IN SelectSeq(d, LAMBDA c : c # DASH) \o SelectSeq(r, LAMBDA c : c # COLON)
VComponents(p) == IF Up(p.n) = V_N THEN Structured(p.v, 5) ELSE IF Up(p.n) = V_ADR THEN Structured(p.v, 7) ELSE <<DecV(Items(p.v, IF Up(p.n) = V_ORG THEN SEMI ELSE COMMA))>>
VMeaning(p) == LET t == VType(p) IN
  IF t = "TEXT" THEN IF Up(p.n) \in {V_N, V_ADR, V_ORG, V_NICKNAME, V_CATEGORIES} THEN Marked(VComponents(p)) ELSE <<TDecV(p.v)>>
  ELSE IF t = "DATE" THEN <<Basic(p.v)>>
  ELSE IF t = "UTC-OFFSET" THEN <<SelectSeq(p.v, LAMBDA c : c # COLON)>>
  ELSE <<p.v>>
VPars(p) == LET q == SelectSeq(p.ps, LAMBDA x : Up(x.n) # V_VALUE \/ VType(p) = "OTHER") IN BagV([i \in 1..Len(q) |-> <<Up(q[i].n), q[i].v>>])
VCanonP(p) == <<p.g, p.n, VType(p), VPars(p), VMeaning(p)>>
VCanon(c) == BagV([i \in 1..Len(c) |-> VCanonP(c[i])])
\* what an application sees of the structured and list values, property by property
Seen(c) == LET q == SelectSeq(c, LAMBDA p : Up(p.n) \in {V_N, V_ADR, V_ORG, V_NICKNAME, V_CATEGORIES} /\ VType(p) = "TEXT")
           IN BagV([i \in 1..Len(q) |-> <<Up(q[i].n), VComponents(q[i])>>])
=============================================================================
