------------------------------ MODULE ICalText ------------------------------
(***************************************************************************)
(* iCalendar/vCard text, RFC 5545 3.1-3.3, 6868: text is a sequence of     *)
(* octets.  Content lines, folding, the lexical shape of a property,       *)
(* escaped text values and lists, parameter value encoding.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CR == 13
LF == 10
SP == 32
TAB == 9
DQ == 34
COLON == 58
SEMI == 59
COMMA == 44
BSL == 92
CARET == 94
EQ == 61
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
FromI(s, i) == SubSeq(s, i, Len(s))
\* index of the first element of s at or after i in set C; 0 if none
FirstIn(s, i, C) == LET S == {k \in i..Len(s) : s[k] \in C} IN IF S = {} THEN 0 ELSE MinS(S)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE FlatR(_, _, _)
FlatR(q, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN q[i] ELSE LET m == (i + j) \div 2 IN FlatR(q, i, m) \o FlatR(q, m + 1, j)
Flat(q) == FlatR(q, 1, Len(q))
UpC(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Up(s) == [i \in 1..Len(s) |-> UpC(s[i])]
\* ------------------------------------------------------------------ physical and logical lines
\* the octets between line feeds; what follows the last line feed counts if it is not empty
LFs(s) == SetToSortSeq({i \in 1..Len(s) : s[i] = LF}, LAMBDA a, b : a < b)
Phys(s) == LET p == LFs(s)
               n == Len(p)
               seg(k) == SubSeq(s, IF k = 1 THEN 1 ELSE p[k - 1] + 1, p[k] - 1)
               last == IF n = 0 THEN s ELSE FromI(s, p[n] + 1)
           IN [k \in 1..n |-> seg(k)] \o (IF last = <<>> THEN <<>> ELSE <<last>>)
NoCR(l) == IF Len(l) > 0 /\ l[Len(l)] = CR THEN SubSeq(l, 1, Len(l) - 1) ELSE l
IsFold(l) == Len(l) > 0 /\ l[1] \in {SP, TAB}
\* logical lines: a physical line beginning with a space or a tab continues the line before it
Groups(q) == LET heads == {k \in 1..Len(q) : k = 1 \/ ~IsFold(q[k])}
                 hs == SetToSortSeq(heads, LAMBDA a, b : a < b)
                 upto(j) == IF j = Len(hs) THEN Len(q) ELSE hs[j + 1] - 1
             IN [j \in 1..Len(hs) |-> SubSeq(q, hs[j], upto(j))]
JoinGroup(g) == g[1] \o Flat([k \in 1..(Len(g) - 1) |-> Tail(g[k + 1])])
UnfoldLines(q) == LET g == Groups(q) IN [j \in 1..Len(g) |-> JoinGroup(g[j])]
Unfold(s) == UnfoldLines([k \in 1..Len(Phys(s)) |-> NoCR(Phys(s)[k])])
\* what is written: every physical line ends in CRLF, at most 75 octets without it
WrittenPhys(s) == LET q == Phys(s) IN [k \in 1..Len(q) |-> NoCR(q[k])]
AllCRLF(s) == Len(s) >= 2 /\ s[Len(s)] = LF /\ \A i \in 1..Len(s) : s[i] = LF => i > 1 /\ s[i - 1] = CR
Short(s, w) == \A k \in 1..Len(Phys(s)) : Len(NoCR(Phys(s)[k])) <= w
\* UTF-8: number of octets announced by a lead octet
U8Len(c) == IF c >= 194 /\ c <= 223 THEN 2 ELSE IF c >= 224 /\ c <= 239 THEN 3 ELSE IF c >= 240 /\ c <= 244 THEN 4 ELSE 1
IsCont(c) == c >= 128 /\ c <= 191
\* a cut before position p of line l falls inside a character
InsideChar(l, p) == p <= Len(l) /\ \E q \in (IF p > 3 THEN p - 3 ELSE 1)..(p - 1) : U8Len(l[q]) > p - q /\ \A r \in (q + 1)..p : IsCont(l[r])
\* the cut positions of one folded line in the unfolded line
Cuts(q) == {Len(q[1]) + 1 + (IF k = 2 THEN 0 ELSE Len(Flat([j \in 1..(k - 2) |-> Tail(q[j + 1])]))) : k \in 2..Len(q)}
\* ------------------------------------------------------------------ parameter value encoding (RFC 6868)
ParDec(v) == LET st == FoldLeft(LAMBDA a, c : IF a.h THEN IF c = 110 THEN [o |-> Append(a.o, LF), h |-> FALSE]
                                                     ELSE IF c = 39 THEN [o |-> Append(a.o, DQ), h |-> FALSE]
                                                     ELSE IF c = CARET THEN [o |-> Append(a.o, CARET), h |-> FALSE]
                                                     ELSE [o |-> a.o \o <<CARET, c>>, h |-> FALSE]
                                              ELSE IF c = CARET THEN [o |-> a.o, h |-> TRUE]
                                              ELSE [o |-> Append(a.o, c), h |-> FALSE], [o |-> <<>>, h |-> FALSE], v)
             IN IF st.h THEN Append(st.o, CARET) ELSE st.o
\* line breaks of any form are one line feed in a parameter value
NormNL(v) == LET idx == {i \in 1..Len(v) : ~(v[i] = LF /\ i > 1 /\ v[i - 1] = CR)}
                 o == SetToSortSeq(idx, LAMBDA a, b : a < b)
             IN [k \in 1..Len(o) |-> IF v[o[k]] = CR THEN LF ELSE v[o[k]]]
\* ------------------------------------------------------------------ content line -> name, parameters, value
\* result [ok, name, pars (each [n, v: seq of values]), val]
LexFail == [ok |-> FALSE]
\* one value at i: [ok, v, nx]
LexPVal(s, i) == IF i > Len(s) THEN LexFail
                 ELSE IF s[i] = DQ THEN LET j == FirstIn(s, i + 1, {DQ}) IN IF j = 0 THEN LexFail ELSE [ok |-> TRUE, v |-> ParDec(SubSeq(s, i + 1, j - 1)), nx |-> j + 1]
                 ELSE LET j == FirstIn(s, i, {COLON, SEMI, COMMA}) IN IF j = 0 THEN LexFail ELSE [ok |-> TRUE, v |-> ParDec(SubSeq(s, i, j - 1)), nx |-> j]
RECURSIVE LexPVals(_, _, _)
LexPVals(s, i, acc) == LET r == LexPVal(s, i) IN
                       IF ~r.ok THEN LexFail
                       ELSE IF r.nx > Len(s) THEN LexFail
                       ELSE IF s[r.nx] = COMMA THEN LexPVals(s, r.nx + 1, Append(acc, r.v))
                       ELSE [ok |-> TRUE, vs |-> Append(acc, r.v), nx |-> r.nx]
RECURSIVE LexPars(_, _, _, _)
LexPars(s, i, name, acc) == \* s[i] is ; or :
  IF s[i] = COLON THEN [ok |-> TRUE, name |-> name, pars |-> acc, val |-> FromI(s, i + 1)]
  ELSE IF s[i] # SEMI THEN LexFail
  ELSE LET e == FirstIn(s, i + 1, {EQ, SEMI, COLON, COMMA, DQ}) IN
       IF e = 0 THEN LexFail
       ELSE IF s[e] # EQ \/ e = i + 1 THEN LexFail
       ELSE LET r == LexPVals(s, e + 1, <<>>) IN
            IF ~r.ok THEN LexFail ELSE LexPars(s, r.nx, name, Append(acc, [n |-> SubSeq(s, i + 1, e - 1), v |-> r.vs]))
Lex(s) == LET e == FirstIn(s, 1, {SEMI, COLON}) IN IF e <= 1 THEN LexFail ELSE LexPars(s, e, SubSeq(s, 1, e - 1), <<>>)
\* ------------------------------------------------------------------ escaped text
\* modes: 0 allow (keep as it is), 1 ignore (drop), 2 fix (take the character), 3 refuse
\* result [ok, v, lone] lone: a backslash at the very end
TextDec(v, mcolon, mesc) ==
  LET st == FoldLeft(LAMBDA a, c :
              IF ~a.h THEN IF c = BSL THEN [a EXCEPT !.h = TRUE] ELSE [a EXCEPT !.o = Append(@, c)]
              ELSE LET b == [a EXCEPT !.h = FALSE] IN
                   IF c = 114 THEN [b EXCEPT !.o = Append(@, CR)]
                   ELSE IF c \in {110, 78} THEN [b EXCEPT !.o = Append(@, LF)]
                   ELSE IF c \in {BSL, COMMA, SEMI} THEN [b EXCEPT !.o = Append(@, c)]
                   ELSE LET m == IF c = COLON THEN mcolon ELSE mesc IN
                        IF m = 3 THEN [b EXCEPT !.k = FALSE]
                        ELSE IF m = 2 THEN [b EXCEPT !.o = Append(@, c)]
                        ELSE IF m = 1 THEN b
                        ELSE [b EXCEPT !.o = @ \o <<BSL, c>>],
              [o |-> <<>>, h |-> FALSE, k |-> TRUE], v)
  IN [ok |-> st.k, v |-> st.o, lone |-> st.h]
NeedEsc == {CR, LF, SEMI, BSL, COMMA}
Esc(c) == IF c = CR THEN <<BSL, 114>> ELSE IF c = LF THEN <<BSL, 110>> ELSE IF c \in NeedEsc THEN <<BSL, c>> ELSE <<c>>
TextEnc(v) == Flat([i \in 1..Len(v) |-> Esc(v[i])])
\* positions of the separator sep that are not escaped
Seps(s, C) == FoldLeft(LAMBDA a, i : IF a.h THEN [a EXCEPT !.h = FALSE]
                                     ELSE IF s[i] = BSL THEN [a EXCEPT !.h = TRUE]
                                     ELSE IF s[i] \in C THEN [a EXCEPT !.p = Append(@, i)] ELSE a, [p |-> <<>>, h |-> FALSE], [i \in 1..Len(s) |-> i]).p
SplitAt(s, p) == [k \in 1..(Len(p) + 1) |-> SubSeq(s, IF k = 1 THEN 1 ELSE p[k - 1] + 1, IF k > Len(p) THEN Len(s) ELSE p[k] - 1)]
Items(s, sep) == SplitAt(s, Seps(s, {sep}))
RECURSIVE JoinC(_, _)
JoinC(q, c) == IF Len(q) = 0 THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<c>> \o JoinC(Tail(q), c)
\* nothing in an escaped value can end the value, the line or start another item
Tame(s, C) == Seps(s, C) = <<>> /\ \A i \in 1..Len(s) : s[i] \notin {CR, LF}
\* a quote after a backslash: whether it ends the quoted string is not judged
BackQuote(s) == \E i \in 2..Len(s) : s[i] = DQ /\ s[i - 1] = BSL
=============================================================================
