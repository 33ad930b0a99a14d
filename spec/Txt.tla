-------------------------------- MODULE Txt --------------------------------
(* Text as TLA+ strings (TLC treats a string as a sequence of characters in Len, SubSeq and \o). *)
EXTENDS Integers, Sequences, FiniteSets
Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
PosSet(s, c) == {i \in 1..Len(s) : Ch(s, i) = c}
Pos(s, c) == LET S == PosSet(s, c) IN IF S = {} THEN 0 ELSE MinOf(S)          \* first occurrence, 0 if none
Occ(s, c) == Cardinality(PosSet(s, c))
RECURSIVE Split(_, _)
Split(s, c) == LET p == Pos(s, c) IN IF p = 0 THEN <<s>> ELSE <<SubSeq(s, 1, p - 1)>> \o Split(From(s, p + 1), c)
StartsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
DigitVal == [d \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
              CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
                [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] OTHER -> 9]
IsDigit(c) == c \in DOMAIN DigitVal
IsNum(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(Ch(s, i))
RECURSIVE NatOf(_)
NatOf(s) == IF Len(s) = 0 THEN 0 ELSE NatOf(SubSeq(s, 1, Len(s) - 1)) * 10 + DigitVal[Ch(s, Len(s))]
\* a signed integer: optional + or -, digits (at most nine)
IsInt(s) == LET b == IF Len(s) > 0 /\ Ch(s, 1) \in {"+", "-"} THEN From(s, 2) ELSE s IN IsNum(b) /\ Len(b) <= 9
IntOf(s) == IF Ch(s, 1) = "-" THEN -NatOf(From(s, 2)) ELSE IF Ch(s, 1) = "+" THEN NatOf(From(s, 2)) ELSE NatOf(s)
RECURSIVE JoinWith(_, _)
JoinWith(q, c) == IF Len(q) = 0 THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o c \o JoinWith(Tail(q), c)
UpperMap == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G", h |-> "H", i |-> "I", j |-> "J", k |-> "K", l |-> "L", m |-> "M",
             n |-> "N", o |-> "O", p |-> "P", q |-> "Q", r |-> "R", s |-> "S", t |-> "T", u |-> "U", v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z"]
UpCh(c) == IF c \in DOMAIN UpperMap THEN UpperMap[c] ELSE c
RECURSIVE Upper(_)
Upper(s) == IF Len(s) = 0 THEN "" ELSE UpCh(Ch(s, 1)) \o Upper(From(s, 2))
\* replaces every occurrence of the character c by the text t
RECURSIVE Subst(_, _, _)
Subst(s, c, t) == LET p == Pos(s, c) IN IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1) \o t \o Subst(From(s, p + 1), c, t)
=============================================================================
