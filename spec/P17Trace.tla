------------------------------ MODULE P17Trace ------------------------------
(***************************************************************************)
(* Values in escaped form.  State: the parser modes.  Reading is judged    *)
(* against the grammar in the current modes; what is written is lexed by   *)
(* the specification and must denote exactly what was put in.              *)
(***************************************************************************)
EXTENDS Harness, ICalText
Init17(s) == [colon |-> 2, esc |-> 3, uri |-> 2, rs |-> 2, adr |-> 2, nopar |-> 0, b64 |-> 2]
Bag17(q) == LET S == {q[i] : i \in 1..Len(q)} IN {<<x, Cardinality({i \in 1..Len(q) : q[i] = x})>> : x \in S}
\* --- reading: a result [ok, v] or free
Dec(st, t) == TextDec(t, st.colon, st.esc)
DecAll(st, q) == [i \in 1..Len(q) |-> Dec(st, q[i])]
JudgeRead(st, e, free, ok, v) == IF free THEN OK(st)
                                 ELSE IF ok /\ e.ok # 1 THEN Bad(st, "refused", v)
                                 ELSE IF ~ok /\ e.ok = 1 THEN Bad(st, "accepted", "refused")
                                 ELSE IF ~ok THEN Check(st, e.exc = "EXC:InvalidProperty", "error-kind", "InvalidProperty")
                                 ELSE Check(st, e.got = v, "value", v)
TDec(st, e) == LET r == Dec(st, e.data) IN JudgeRead(st, e, r.lone, r.ok, r.v)
LDec(st, e) == LET q == DecAll(st, Items(e.data, COMMA)) IN
               JudgeRead(st, e, \E i \in 1..Len(q) : q[i].lone, \A i \in 1..Len(q) : q[i].ok, [i \in 1..Len(q) |-> q[i].v])
ODec(st, e) == LET q == DecAll(st, Items(e.data, SEMI)) IN
               JudgeRead(st, e, \E i \in 1..Len(q) : q[i].lone, \A i \in 1..Len(q) : q[i].ok, [i \in 1..Len(q) |-> <<q[i].v>>])
\* structured: items separated by ; of values separated by , ; filled up to or cut to max items
SDec(st, e) == LET a == Items(e.data, SEMI)
                   b == [i \in 1..Len(a) |-> DecAll(st, Items(a[i], COMMA))]
                   lone == \E i \in 1..Len(b) : \E j \in 1..Len(b[i]) : b[i][j].lone
                   ok == \A i \in 1..Len(b) : \A j \in 1..Len(b[i]) : b[i][j].ok
                   n == IF Len(b) > e.max /\ st.adr = 2 THEN e.max ELSE IF Len(b) < e.max THEN e.max ELSE Len(b)
                   v == [i \in 1..n |-> IF i > Len(b) THEN << <<>> >> ELSE [j \in 1..Len(b[i]) |-> b[i][j].v]]
               IN JudgeRead(st, e, lone \/ (Len(b) > e.max /\ st.adr = 1), ok /\ ~(Len(b) > e.max /\ st.adr = 3), v)
\* REQUEST-STATUS: code;description[;data]
RDec(st, e) == LET q == DecAll(st, Items(e.data, SEMI))
                   lone == \E i \in 1..Len(q) : q[i].lone
                   ok == \A i \in 1..Len(q) : q[i].ok
                   sp == FirstIn(q[1].v, 1, {SEMI})
                   v == [i \in 1..Len(q) |-> q[i].v]
                   w == IF Len(q) = 1 THEN IF sp = 0 THEN <<v[1], <<>> >> ELSE <<SubSeq(v[1], 1, sp - 1), FromI(v[1], sp + 1)>>
                        ELSE IF Len(q) = 2 \/ v[3] = <<>> THEN <<v[1], v[2]>> ELSE <<v[1], v[2], v[3]>>
               IN JudgeRead(st, e, lone \/ FirstIn(w[1], 1, {BSL}) # 0, ok /\ (Len(q) \in {2, 3} \/ st.rs # 3), w)
UDec(st, e) == IF st.uri = 2 THEN TDec(st, e) ELSE JudgeRead(st, e, FALSE, TRUE, e.data)
\* --- a whole line
RECURSIVE LexV(_, _, _, _, _, _)
LexV(s, i, name, acc, m, strip) ==      \* vCard: a parameter may lack its value
  IF s[i] = COLON THEN [ok |-> TRUE, name |-> name, pars |-> acc, val |-> IF strip THEN SelectSeq(FromI(s, i + 1), LAMBDA c : c # SP) ELSE FromI(s, i + 1)]
  ELSE IF s[i] # SEMI THEN LexFail
  ELSE LET e == FirstIn(s, i + 1, {EQ, SEMI, COLON}) IN
       IF e = 0 \/ e = i + 1 THEN LexFail
       ELSE LET n == SubSeq(s, i + 1, e - 1) IN
            IF s[e] = EQ THEN LET r == LexPVals(s, e + 1, <<>>) IN IF ~r.ok THEN LexFail ELSE LexV(s, r.nx, name, Append(acc, [n |-> n, v |-> r.vs]), m, strip)
            ELSE IF m.nopar = 3 THEN LexFail
            ELSE IF Up(n) = <<66, 65, 83, 69, 54, 52>> /\ m.b64 = 2 THEN LexV(s, e, name, Append(acc, [n |-> <<69, 78, 67, 79, 68, 73, 78, 71>>, v |-> << <<66>> >>]), m, TRUE)
            ELSE LexV(s, e, name, IF m.nopar = 0 THEN Append(acc, [n |-> n, v |-> <<>>]) ELSE acc, m, strip)
LexLine(st, e) == IF e.vcard = 1 THEN LET k == FirstIn(e.data, 1, {SEMI, COLON}) IN IF k <= 1 THEN LexFail ELSE LexV(e.data, k, SubSeq(e.data, 1, k - 1), <<>>, st, FALSE) ELSE Lex(e.data)
PDec(st, e) == LET r == LexLine(st, e) IN
               IF BackQuote(e.data) THEN OK(st)
               ELSE IF r.ok /\ e.ok # 1 THEN Bad(st, "line-refused", r)
               ELSE IF ~r.ok THEN IF e.ok = 1 THEN Bad(st, "line-accepted", "refused") ELSE Check(st, e.exc = "EXC:InvalidProperty", "error-kind", "InvalidProperty")
               ELSE IF e.got.name # r.name THEN Bad(st, "line-name", r.name)
               ELSE IF Bag17(e.got.pars) # Bag17(r.pars) THEN Bad(st, "line-parameters", r.pars)
               ELSE Check(st, e.got.val = r.val, "line-value", r.val)
\* --- writing
OneLine(out) == LET q == Unfold(out) IN IF Len(q) # 1 THEN LexFail ELSE Lex(q[1])
NoNL(s) == \A i \in 1..Len(s) : s[i] \notin {CR, LF}
Sound(st, e, F(_)) == \* F(value octets) says whether the value denotes what was put in
  LET r == OneLine(e.out) IN
  IF e.ok # 1 THEN Bad(st, "write-error", "written")
  ELSE IF ~r.ok THEN Bad(st, "written-line", "one content line")
  ELSE IF r.name # e.name \/ r.pars # <<>> THEN Bad(st, "broke-out", "no parameter")
  ELSE IF ~NoNL(r.val) THEN Bad(st, "raw-newline", "escaped")
  ELSE IF ~F(r.val) THEN Bad(st, "written-value", e.v)
  ELSE Check(st, e.back = e.v, "read-back", e.v)
Plain(t, v) == LET r == TextDec(t, 3, 3) IN r.ok /\ ~r.lone /\ r.v = v
TEnc(st, e) == Sound(st, e, LAMBDA t : Seps(t, {COMMA, SEMI}) = <<>> /\ Plain(t, e.v))
ListIs(t, sep, v) == LET q == Items(t, sep) IN Len(q) = Len(v) /\ \A i \in 1..Len(q) : Plain(q[i], v[i])
LEnc(st, e) == Sound(st, e, LAMBDA t : Seps(t, {SEMI}) = <<>> /\ ListIs(t, COMMA, e.v))
OEnc(st, e) == Sound(st, e, LAMBDA t : Seps(t, {COMMA}) = <<>> /\ ListIs(t, SEMI, [i \in 1..Len(e.v) |-> e.v[i][1]]))
REnc(st, e) == Sound(st, e, LAMBDA t : Seps(t, {COMMA}) = <<>> /\ ListIs(t, SEMI, e.v))
SEnc(st, e) == Sound(st, e, LAMBDA t : LET a == Items(t, SEMI) IN Len(a) = Len(e.v) /\ \A i \in 1..Len(a) : ListIs(a[i], COMMA, e.v[i]))
UEnc(st, e) == IF st.uri = 0 /\ ~NoNL(e.v) THEN OK(st) ELSE Sound(st, e, LAMBDA t : TRUE)
PEnc(st, e) == LET q == Unfold(e.out)
                   r == Lex(q[1])
                   want == [i \in 1..Len(e.pars) |-> [n |-> e.pars[i].n, v |-> [j \in 1..Len(e.pars[i].v) |-> NormNL(e.pars[i].v[j])]]]
               IN IF e.ok # 1 THEN Bad(st, "write-error", "written")
                  ELSE IF Len(q) # 1 THEN Bad(st, "written-line", "one content line")
                  ELSE IF ~r.ok THEN Bad(st, "written-line", "a content line")
                  ELSE IF r.name # e.name \/ r.val # e.val THEN Bad(st, "broke-out", <<e.name, e.val>>)
                  ELSE IF Bag17(r.pars) # Bag17(want) THEN Bad(st, "written-parameters", want)
                  ELSE IF e.lonebs = 1 /\ (e.backok = 0 \/ Bag17(e.back.pars) # Bag17(want)) THEN Bad(st, "quoted-trailing-backslash", want)
                  ELSE IF e.backok = 0 THEN Bad(st, "read-back-refused", want)
                  ELSE IF Bag17(e.back.pars) # Bag17(want) \/ e.back.name # e.name \/ e.back.val # e.val THEN Bad(st, "read-back-parameters", want)
                  ELSE OK(st)
Step17(st, e) ==
  CASE e.op = "modes" -> OK([colon |-> e.colon, esc |-> e.esc, uri |-> e.uri, rs |-> e.rs, adr |-> e.adr, nopar |-> e.nopar, b64 |-> e.b64])
    [] e.op = "tdec" -> TDec(st, e) [] e.op = "ldec" -> LDec(st, e) [] e.op = "odec" -> ODec(st, e) [] e.op = "sdec" -> SDec(st, e)
    [] e.op = "rdec" -> RDec(st, e) [] e.op = "udec" -> UDec(st, e) [] e.op = "pdec" -> PDec(st, e)
    [] e.op = "tenc" -> TEnc(st, e) [] e.op = "lenc" -> LEnc(st, e) [] e.op = "oenc" -> OEnc(st, e) [] e.op = "senc" -> SEnc(st, e)
    [] e.op = "renc" -> REnc(st, e) [] e.op = "uenc" -> UEnc(st, e) [] e.op = "penc" -> PEnc(st, e)
    [] OTHER -> OK(st)
=============================================================================
