------------------------------ MODULE CalForms ------------------------------
(***************************************************************************)
(* The jCal (RFC 7265) and xCal (RFC 6321) form of a calendar, defined     *)
(* from the meaning of its text: what each property, parameter and value   *)
(* becomes.  JSON values are given as their compact JSON text (octets).    *)
(***************************************************************************)
EXTENDS CalCanon
Low(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
RECURSIVE Cat(_, _)
Cat(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Cat(Tail(q), sep)
JCh(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] OTHER -> <<c>>
JStr(s) == <<34>> \o Cat([i \in 1..Len(s) |-> JCh(s[i])], <<>>) \o <<34>>
JArr(q) == <<91>> \o Cat(q, <<44>>) \o <<93>>
\* extended forms: 20200131 -> 2020-01-31, T101500 -> T10:15:00, +0100 -> +01:00
XDate(v) == SubSeq(v, 1, 4) \o <<45>> \o SubSeq(v, 5, 6) \o <<45>> \o SubSeq(v, 7, 8)
XDT(v) == IF Len(v) = 8 THEN XDate(v) ELSE XDate(v) \o SubSeq(v, 9, 11) \o <<58>> \o SubSeq(v, 12, 13) \o <<58>> \o SubSeq(v, 14, Len(v))
XOff(v) == SubSeq(v, 1, 3) \o <<58>> \o SubSeq(v, 4, 5) \o (IF Len(v) > 5 THEN <<58>> \o SubSeq(v, 6, 7) ELSE <<>>)
IsDur(v) == \E i \in 1..Len(v) : v[i] = 80
Halves(v) == LET p == CHOOSE i \in 1..Len(v) : v[i] = 47 IN <<SubSeq(v, 1, p - 1), FromI(v, p + 1)>>
SplitOn(v, c) == LET P == {i \in 1..Len(v) : v[i] = c}
                     E == SetToSortSeq(P \cup {Len(v) + 1}, <)
                 IN [k \in 1..Len(E) |-> SubSeq(v, IF k = 1 THEN 1 ELSE E[k - 1] + 1, E[k] - 1)]
\* the values of a property as written
ItemsOf(l) == IF l.n \in ListProps THEN (IF EType(l) = "TEXT" THEN Items(l.v, COMMA) ELSE SplitOn(l.v, COMMA)) ELSE <<l.v>>
IsGeo(l) == l.n = N_GEO /\ EType(l) = "FLOAT"
IsStatus(l) == l.n = N_REQUEST_STATUS /\ EType(l) = "TEXT"
\* parameters: values of a repeated parameter are put together
ParNames(l) == {Up(l.ps[i].n) : i \in {j \in 1..Len(l.ps) : Up(l.ps[j].n) # N_VALUE}}
ParVals(l, n) == Cat([i \in 1..Len(l.ps) |-> IF Up(l.ps[i].n) = n THEN l.ps[i].v ELSE <<>>], <<>>)
FPars(l) == {<<Low(n), ParVals(l, n)>> : n \in ParNames(l)}
\* --- jCal
JType(l) == LET t == EType(l) IN IF t = "OTHER" THEN Low(ValuePar(l)) ELSE IF t = "UNKNOWN" THEN K_unknown ELSE Low(NameOfV[t])
Scalar(j) == {<< <<>>, <<j>> >>}
RecPart(x) == LET p == CHOOSE i \in 1..Len(x) : x[i] = 61 /\ \A j \in 1..(i - 1) : x[j] # 61
                  k == Low(SubSeq(x, 1, p - 1))
                  v == FromI(x, p + 1)
              IN <<k, v>>
RecParts(v) == {RecPart(Items(v, SEMI)[i]) : i \in 1..Len(Items(v, SEMI))}
\* parts that say nothing
Idle(k, v) == (k = K_interval /\ v = <<49>>) \/ (k = K_wkst /\ v = <<77, 79>>)
JRec(v) == {<<p[1], IF p[1] \in {K_freq, K_byday, K_wkst} THEN [i \in 1..Len(SplitOn(p[2], COMMA)) |-> JStr(SplitOn(p[2], COMMA)[i])]
                    ELSE IF p[1] = K_until THEN <<JStr(XDT(p[2]))>> ELSE SplitOn(p[2], COMMA)>> : p \in {q \in RecParts(v) : ~Idle(q[1], q[2])}}
JVal(t, x) == CASE t = "TEXT" -> Scalar(JStr(TDecR(x)))
                [] t = "DATE" -> Scalar(JStr(XDate(x)))
                [] t = "DATE-TIME" -> Scalar(JStr(XDT(x)))
                [] t = "UTC-OFFSET" -> Scalar(JStr(XOff(x)))
                [] t = "PERIOD" -> LET h == Halves(x) IN Scalar(JArr(<<JStr(XDT(h[1])), JStr(IF IsDur(h[2]) THEN h[2] ELSE XDT(h[2]))>>))
                [] t \in {"INTEGER", "FLOAT"} -> Scalar(x)
                [] t = "RECUR" -> JRec(x)
                [] OTHER -> Scalar(JStr(x))
JVals(l) == IF IsGeo(l) THEN <<Scalar(JArr(SplitOn(l.v, SEMI)))>>
            ELSE IF IsStatus(l) THEN <<Scalar(JArr([i \in 1..Len(Items(l.v, SEMI)) |-> JStr(TDecR(Items(l.v, SEMI)[i]))]))>>
            ELSE [i \in 1..Len(ItemsOf(l)) |-> JVal(EType(l), ItemsOf(l)[i])]
JProp(l) == <<Low(l.n), FPars(l), JType(l), JVals(l)>>
RECURSIVE JTree(_)
JTree(n) == <<Low(n.t), BagOf([i \in 1..Len(n.ps) |-> JProp(n.ps[i])]), BagOf([i \in 1..Len(n.cs) |-> JTree(n.cs[i])])>>
\* --- xCal: a value is <<element name, its leaves>>; a leaf <<element name, text>>
Leaf(t, x) == <<t, {<< <<>>, x>>}>>
XRec(v) == UNION {{<<p[1], IF p[1] = K_until THEN XDT(y) ELSE y>> : y \in {SplitOn(p[2], COMMA)[i] : i \in 1..Len(SplitOn(p[2], COMMA))}} : p \in {q \in RecParts(v) : ~Idle(q[1], q[2])}}
XType(l) == LET t == EType(l) IN IF t \in {"OTHER", "UNKNOWN", "BOOLEAN", "TIME"} THEN K_unknown ELSE Low(NameOfV[t])
XVal(l, t, x) == CASE t = "TEXT" -> Leaf(XType(l), TDecR(x))
                [] t = "DATE" -> Leaf(XType(l), XDate(x))
                [] t = "DATE-TIME" -> Leaf(XType(l), XDT(x))
                [] t = "UTC-OFFSET" -> Leaf(XType(l), XOff(x))
                [] t = "PERIOD" -> LET h == Halves(x) IN <<XType(l), {<<K_start, XDT(h[1])>>, IF IsDur(h[2]) THEN <<K_duration, h[2]>> ELSE <<K_end, XDT(h[2])>>}>>
                [] t = "RECUR" -> <<XType(l), XRec(x)>>
                [] OTHER -> Leaf(XType(l), x)
XVals(l) == IF IsGeo(l) THEN <<Leaf(K_latitude, SplitOn(l.v, SEMI)[1]), Leaf(K_longitude, SplitOn(l.v, SEMI)[2])>>
            ELSE IF IsStatus(l) THEN LET q == Items(l.v, SEMI) IN [i \in 1..Len(q) |-> Leaf(<<K_code, K_description, K_data>>[i], TDecR(q[i]))]
            ELSE [i \in 1..Len(ItemsOf(l)) |-> XVal(l, EType(l), ItemsOf(l)[i])]
XProp(l) == <<Low(l.n), FPars(l), XVals(l)>>
RECURSIVE XTree(_)
XTree(n) == <<Low(n.t), BagOf([i \in 1..Len(n.ps) |-> XProp(n.ps[i])]), BagOf([i \in 1..Len(n.cs) |-> XTree(n.cs[i])])>>
\* recorded forms (plain arrays) as the same tuples
SetOfSeq(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE GotJ(_)
GotJ(x) == <<x[1], BagOf([i \in 1..Len(x[2]) |-> LET p == x[2][i] IN <<p[1], SetOfSeq(p[2]), p[3], [j \in 1..Len(p[4]) |-> SetOfSeq(p[4][j])]>>]),
             BagOf([i \in 1..Len(x[3]) |-> GotJ(x[3][i])])>>
RECURSIVE GotX(_)
GotX(x) == <<x[1], BagOf([i \in 1..Len(x[2]) |-> LET p == x[2][i] IN <<p[1], SetOfSeq(p[2]), [j \in 1..Len(p[3]) |-> <<p[3][j][1], SetOfSeq(p[3][j][2])>>]>>]),
             BagOf([i \in 1..Len(x[3]) |-> GotX(x[3][i])])>>
\* names whose case is kept by a form that has lower-case names only, no repeated parameter
RECURSIVE Faithful(_)
Faithful(n) == /\ \A i \in 1..Len(n.ps) : LET l == n.ps[i] IN
                    /\ l.raw = l.n
                    /\ \A j \in 1..Len(l.ps) : l.ps[j].n = Up(l.ps[j].n) /\ (l.ps[j].n = N_VALUE => l.ps[j].v[1] = Up(l.ps[j].v[1])) /\ \A k \in 1..(j - 1) : l.ps[k].n # l.ps[j].n
               /\ \A i \in 1..Len(n.cs) : Faithful(n.cs[i])
=============================================================================
