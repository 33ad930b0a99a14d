----------------------------- MODULE ValueText -----------------------------
(***************************************************************************)
(* The value grammars of RFC 5545 3.3 (DATE, DATE-TIME, DURATION, PERIOD,  *)
(* UTC-OFFSET, INTEGER, FLOAT) and their extended (jCal/vCard) forms.      *)
(* PVal(type, text, strict) gives                                          *)
(*   [k: "ok", v]  well formed, denotes v                                  *)
(*   [k: "if", v]  tolerated: may be refused, otherwise denotes v          *)
(*   [k: "no"]     ill formed, must be refused                             *)
(*   [k: "free"]   the property does not say (numbers out of range, ...)   *)
(***************************************************************************)
EXTENDS Txt, Civil, TLC
Ok(v) == [k |-> "ok", v |-> v]
If(v) == [k |-> "if", v |-> v]
No == [k |-> "no"]
Fre == [k |-> "free"]
N2(t, i) == NatOf(SubSeq(t, i, i + 1))
D2(t, i) == Len(t) >= i + 1 /\ IsNum(SubSeq(t, i, i + 1))
\* ---------------------------------------------------------------- DATE, DATE-TIME
DtV(y, m, d, h, n, s, do, tz) == [y |-> y, m |-> m, d |-> d, h |-> h, n |-> n, s |-> s, do |-> do, tz |-> tz]
DateInRange(y, m, d) == y >= 1 /\ ValidDate(y, m, d)
TimeInRange(h, n, s) == h <= 23 /\ n <= 59 /\ s <= 59
HasSpace(t) == Occ(t, " ") > 0
DateVal(t) ==   \* YYYYMMDD
  IF Len(t) # 8 \/ ~IsNum(t) THEN IF HasSpace(t) THEN Fre ELSE No
  ELSE LET y == NatOf(SubSeq(t, 1, 4)) m == N2(t, 5) d == N2(t, 7) IN IF DateInRange(y, m, d) THEN Ok(DtV(y, m, d, 0, 0, 0, 1, "F")) ELSE Fre
DateTimeVal(t) ==   \* DATE [T HHMMSS [Z]]
  IF Len(t) = 8 THEN DateVal(t)
  ELSE IF Len(t) \notin {15, 16} THEN IF HasSpace(t) THEN Fre ELSE No
  ELSE IF ~(IsNum(SubSeq(t, 1, 8)) /\ Ch(t, 9) = "T" /\ IsNum(SubSeq(t, 10, 15)) /\ (Len(t) = 16 => Ch(t, 16) = "Z")) THEN IF HasSpace(t) THEN Fre ELSE No
  ELSE LET b == DateVal(SubSeq(t, 1, 8)) IN
       IF b.k # "ok" \/ ~TimeInRange(N2(t, 10), N2(t, 12), N2(t, 14)) THEN Fre
       ELSE Ok([b.v EXCEPT !.do = 0, !.h = N2(t, 10), !.n = N2(t, 12), !.s = N2(t, 14), !.tz = IF Len(t) = 16 THEN "Z" ELSE "F"])
\* extended: YYYY-MM-DD[THH:MM:SS[,digits][Z|(+|-)HH[:]MM]]; the basic form is also read there
ExtBody(t) == Len(t) >= 10 /\ IsNum(SubSeq(t, 1, 4)) /\ Ch(t, 5) = "-" /\ D2(t, 6) /\ Ch(t, 8) = "-" /\ D2(t, 9)
ExtTime(t) == Len(t) >= 19 /\ Ch(t, 11) = "T" /\ D2(t, 12) /\ Ch(t, 14) = ":" /\ D2(t, 15) /\ Ch(t, 17) = ":" /\ D2(t, 18)
ZoneTok(z) == IF z = "" THEN [ok |-> TRUE, tz |-> "F"] ELSE IF z = "Z" THEN [ok |-> TRUE, tz |-> "Z"]
              ELSE IF Ch(z, 1) \in {"+", "-"} /\ ((Len(z) = 5 /\ D2(z, 2) /\ D2(z, 4)) \/ (Len(z) = 6 /\ D2(z, 2) /\ Ch(z, 4) = ":" /\ D2(z, 5)))
                   THEN LET o == (N2(z, 2) * 60 + (IF Len(z) = 5 THEN N2(z, 4) ELSE N2(z, 5))) * 60 IN
                        [ok |-> TRUE, tz |-> IF o = 0 THEN "Z" ELSE "O" \o ToString(IF Ch(z, 1) = "-" THEN -o ELSE o)]
              ELSE [ok |-> FALSE]
RECURSIVE DropDigits(_)
DropDigits(t) == IF t # "" /\ IsDigit(Ch(t, 1)) THEN DropDigits(From(t, 2)) ELSE t
FracOk(t) == t = "" \/ Ch(t, 1) # "," \/ (Len(t) > 1 /\ IsDigit(Ch(t, 2)))
NoFrac(t) == IF t # "" /\ Ch(t, 1) = "," THEN DropDigits(From(t, 2)) ELSE t
ExtVal(t) ==
  IF HasSpace(t) THEN Fre
  ELSE LET dashed == ExtBody(t)
           dl == IF dashed THEN 10 ELSE 8
           hd == IF dashed THEN Subst(SubSeq(t, 1, 10), "-", "") ELSE IF Len(t) >= 8 THEN SubSeq(t, 1, 8) ELSE t
           mixed == ~dashed /\ Len(t) >= 9 /\ (Ch(t, 5) = "-" \/ Ch(t, 7) = "-")     \* one dash only
           tm == IF Len(t) > dl THEN From(t, dl + 1) ELSE ""
           colon == Len(tm) >= 9 /\ Ch(tm, 4) = ":" /\ Ch(tm, 7) = ":"
           halfcolon == Len(tm) >= 8 /\ (Ch(tm, 4) = ":" \/ Ch(tm, 6) = ":") /\ ~colon
           th == IF colon THEN Subst(SubSeq(tm, 1, 9), ":", "") ELSE IF Len(tm) >= 7 THEN SubSeq(tm, 1, 7) ELSE tm
           rest == IF tm = "" THEN "" ELSE IF colon THEN From(tm, 10) ELSE From(tm, 8)
           b == DateTimeVal(hd \o th)
           z == ZoneTok(NoFrac(rest))
       IN IF mixed THEN Fre
          ELSE IF tm = "" THEN DateVal(hd)
          ELSE IF halfcolon \/ (dashed # colon /\ b.k = "ok") THEN Fre
          ELSE IF b.k # "ok" THEN b
          ELSE IF ~FracOk(rest) \/ ~z.ok THEN No
          ELSE IF NoFrac(rest) # rest THEN If([b.v EXCEPT !.tz = z.tz])
          ELSE Ok([b.v EXCEPT !.tz = z.tz])
\* ---------------------------------------------------------------- DURATION
\* parts after "T": digits H, digits M, digits S
RECURSIVE LeadNum(_)
LeadNum(t) == IF t # "" /\ IsDigit(Ch(t, 1)) THEN 1 + LeadNum(From(t, 2)) ELSE 0
Unit(t, c) == LET n == LeadNum(t) IN n > 0 /\ Len(t) > n /\ Ch(t, n + 1) = c
UnitNum(t) == LET n == LeadNum(t) IN SubSeq(t, 1, n)
AfterUnit(t) == From(t, LeadNum(t) + 2)
Take(t, c) == IF Unit(t, c) THEN [has |-> TRUE, n |-> UnitNum(t), r |-> AfterUnit(t)] ELSE [has |-> FALSE, n |-> "0", r |-> t]
TooBig(n) == Len(n) > 5
DurV(neg, days, secs) == LET d == days + secs \div 86400
                             s == secs % 86400
                         IN [neg |-> IF neg /\ (d # 0 \/ s # 0) THEN 1 ELSE 0, d |-> d, s |-> s]
DurVal(t, strict) ==
  LET sg == t # "" /\ Ch(t, 1) \in {"+", "-"}
      b == IF sg THEN From(t, 2) ELSE t
      neg == sg /\ Ch(t, 1) = "-"
  IN IF b = "" \/ Ch(b, 1) # "P" THEN No
     ELSE LET p == From(b, 2)
              w == Take(p, "W")
              d == Take(p, "D")
          IN IF w.has THEN IF TooBig(w.n) THEN Fre
                           ELSE IF w.r = "" THEN Ok(DurV(neg, NatOf(w.n) * 7, 0))
                           ELSE IF strict THEN No ELSE Fre          \* text after W is only refused when asked to
             ELSE IF p = "" THEN No
             ELSE IF d.r = "" THEN IF TooBig(d.n) THEN Fre ELSE Ok(DurV(neg, NatOf(d.n), 0))
             ELSE IF Ch(d.r, 1) # "T" THEN No
             ELSE LET tt == From(d.r, 2)
                      h == Take(tt, "H")
                      m == Take(h.r, "M")
                      s == Take(m.r, "S")
                      days == NatOf(d.n)
                  IN IF tt = "" THEN IF strict THEN No ELSE IF TooBig(d.n) THEN Fre ELSE If(DurV(neg, days, 0))
                     ELSE IF s.r # "" THEN No
                     ELSE IF TooBig(h.n) \/ TooBig(m.n) \/ TooBig(s.n) \/ TooBig(d.n) THEN Fre
                     ELSE LET v == DurV(neg, days, NatOf(h.n) * 3600 + NatOf(m.n) * 60 + NatOf(s.n)) IN
                          IF h.has /\ s.has /\ ~m.has THEN If(v) ELSE Ok(v)        \* H then S without M: not in the grammar, harmless
\* ---------------------------------------------------------------- PERIOD: start / (end | duration)
PerVal(t, strict) ==
  IF Occ(t, "/") # 1 THEN IF strict \/ Occ(t, "/") = 0 THEN No ELSE Fre
  ELSE LET q == Split(t, "/")
           a == DateTimeVal(q[1])
           b == DateTimeVal(q[2])
           d == DurVal(q[2], strict)
       IN IF a.k = "no" \/ (b.k = "no" /\ d.k = "no") THEN No
          ELSE IF a.k # "ok" THEN Fre
          ELSE IF d.k \in {"ok", "if"}
               THEN IF Ch(q[2], 1) = "-" \/ a.v.do = 1 THEN Fre ELSE [k |-> d.k, v |-> [dur |-> 1, start |-> a.v, len |-> d.v, end |-> a.v]]
          ELSE IF b.k # "ok" THEN Fre
          ELSE IF a.v.do # b.v.do \/ a.v.tz # b.v.tz \/ a.v.do = 1 THEN Fre
          ELSE Ok([dur |-> 0, start |-> a.v, end |-> b.v, len |-> [neg |-> 0, d |-> 0, s |-> 0]])
\* ---------------------------------------------------------------- UTC-OFFSET: (+|-)HHMM[SS], extended with colons
OffV(t, h, m, s) == LET v == h * 3600 + m * 60 + s IN
                    IF m > 59 \/ s > 59 \/ h > 23 \/ (v = 0 /\ Ch(t, 1) = "-") THEN Fre ELSE Ok(IF Ch(t, 1) = "-" THEN -v ELSE v)
OffVal(t) ==
  IF t = "" \/ Ch(t, 1) \notin {"+", "-"} \/ Len(t) \notin {5, 7} \/ ~IsNum(From(t, 2)) THEN No
  ELSE OffV(t, N2(t, 2), N2(t, 4), IF Len(t) = 7 THEN N2(t, 6) ELSE 0)
ExtOffVal(t) ==
  IF t = "" \/ Ch(t, 1) \notin {"+", "-"} THEN No
  ELSE IF Len(t) \in {5, 7} THEN IF IsNum(From(t, 2)) THEN Fre ELSE No
  ELSE IF ~(Len(t) \in {6, 9} /\ D2(t, 2) /\ Ch(t, 4) = ":" /\ D2(t, 5) /\ (Len(t) = 9 => Ch(t, 7) = ":" /\ D2(t, 8))) THEN No
  ELSE OffV(t, N2(t, 2), N2(t, 5), IF Len(t) = 9 THEN N2(t, 8) ELSE 0)
\* ---------------------------------------------------------------- INTEGER and FLOAT as canonical decimal text
RECURSIVE LStrip0(_)
LStrip0(t) == IF Len(t) > 1 /\ Ch(t, 1) = "0" THEN LStrip0(From(t, 2)) ELSE t
RECURSIVE RStrip0(_)
RStrip0(t) == IF Len(t) > 0 /\ Ch(t, Len(t)) = "0" THEN RStrip0(SubSeq(t, 1, Len(t) - 1)) ELSE t
Sign(t) == IF t # "" /\ Ch(t, 1) \in {"+", "-"} THEN Ch(t, 1) ELSE ""
Unsigned(t) == IF Sign(t) = "" THEN t ELSE From(t, 2)
WithSign(t, c) == IF Sign(t) = "-" /\ c # "0" THEN "-" \o c ELSE c
IntVal(t) == IF ~IsNum(Unsigned(t)) THEN No ELSE Ok(WithSign(t, LStrip0(Unsigned(t))))
FltVal(t) ==
  LET u == Unsigned(t)
      p == Pos(u, ".")
      ip == IF p = 0 THEN u ELSE SubSeq(u, 1, p - 1)
      fp == IF p = 0 THEN "" ELSE RStrip0(From(u, p + 1))
  IN IF u = "" \/ ~IsNum(ip) \/ (p # 0 /\ ~IsNum(From(u, p + 1))) THEN No
     ELSE IF Len(ip) + Len(fp) > 15 THEN Fre                  \* beyond what a double holds exactly
     ELSE Ok(WithSign(t, LStrip0(ip) \o (IF fp = "" THEN "" ELSE "." \o fp)))
PVal(type, t, strict) ==
  CASE type = "dt" -> DateTimeVal(t)
    [] type = "dtx" -> ExtVal(t)
    [] type = "dur" -> DurVal(t, strict)
    [] type = "per" -> PerVal(t, strict)
    [] type = "off" -> OffVal(t)
    [] type = "offx" -> ExtOffVal(t)
    [] type = "int" -> IntVal(t)
    [] type = "flt" -> FltVal(t)
=============================================================================
