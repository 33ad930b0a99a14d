------------------------------- MODULE TextMC -------------------------------
(***************************************************************************)
(* The text grammar by itself, over every text up to MaxLen over a small   *)
(* alphabet: encodings are inverse, injective, and cannot break out; a     *)
(* line folded anywhere between characters unfolds to itself.              *)
(***************************************************************************)
EXTENDS ICalText
CONSTANTS Alpha, MaxLen, W
VARIABLES txt, other, out, todo, ph
vars == <<txt, other, out, todo, ph>>
Init == txt = <<>> /\ other = <<>> /\ out = <<>> /\ todo = <<>> /\ ph = "type"
Type == ph = "type" /\ Len(txt) + Len(other) < MaxLen /\ \E c \in Alpha : txt' = Append(txt, c) /\ UNCHANGED <<other, out, todo, ph>>
Sep == ph = "type" /\ other = <<>> /\ txt # <<>> /\ other' = txt /\ txt' = <<>> /\ UNCHANGED <<out, todo, ph>>
\* the writer: cuts the line where it likes, at most W octets per physical line, between characters
Line == txt # <<>> /\ \A i \in 1..Len(txt) : txt[i] \notin {CR, LF}
WriteStart == ph = "type" /\ other = <<>> /\ Line /\ ph' = "fold" /\ todo' = txt /\ out' = <<>> /\ UNCHANGED <<txt, other>>
Done == Len(txt) - Len(todo)
Fold == ph = "fold" /\ todo # <<>>
        /\ \E k \in 1..Len(todo) : /\ k + (IF out = <<>> THEN 0 ELSE 1) <= W
                                   /\ (k = Len(todo) \/ ~InsideChar(txt, Done + k + 1))
                                   /\ out' = out \o (IF out = <<>> THEN <<>> ELSE <<SP>>) \o SubSeq(todo, 1, k) \o <<CR, LF>>
                                   /\ todo' = FromI(todo, k + 1)
        /\ UNCHANGED <<txt, other, ph>>
Next == Type \/ Sep \/ WriteStart \/ Fold
Spec == Init /\ [][Next]_vars
TextInv == LET r == TextDec(TextEnc(txt), 3, 3) IN r.ok /\ ~r.lone /\ r.v = txt
TameInv == Tame(TextEnc(txt), {COMMA, SEMI})
ListInv == \A c \in {COMMA, SEMI} : LET q == Items(TextEnc(other) \o <<c>> \o TextEnc(txt), c) IN Len(q) = 2 /\ TextDec(q[1], 3, 3).v = other /\ TextDec(q[2], 3, 3).v = txt
FoldInv == ph = "fold" /\ todo = <<>> => /\ (txt[1] \notin {SP, TAB} => Unfold(out) = <<txt>>)
                                         /\ Short(out, W) /\ AllCRLF(out)
                                         /\ \A p \in Cuts(WrittenPhys(out)) : ~InsideChar(txt, p)
\* between characters there is always somewhere to cut
FoldLive == ph = "fold" /\ todo # <<>> => ENABLED Fold
=============================================================================
