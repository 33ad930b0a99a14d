------------------------------ MODULE ZoneData ------------------------------
(***************************************************************************)
(* Olson (tzdata) zones: what the Zone and Rule lines say about the UTC    *)
(* offset at every instant.  Instants are seconds from 1970 (32 bits:      *)
(* years 1905..2037).                                                      *)
(*   rule  [f, t, m, k, d, w, at, mode, save]   years f..t, month m, day:  *)
(*         k = 0 day d, 1 last weekday w, 2 weekday w on or after day d,   *)
(*         3 on or before day d;                                          *)
(*         at seconds of the day in wall (mode 0), standard (1) or         *)
(*         universal (2) time; save seconds                                *)
(*   line  [g, r, save, u, y, m, k, d, w, at, mode]   standard offset g;   *)
(*         r = 0: fixed save, r > 0: rule set r; u = 1: until the time     *)
(*         given by the rest, in the wall, standard or universal time      *)
(*         that is in force just before it                                 *)
(***************************************************************************)
EXTENDS Civil, SequencesExt
NEG == -2147000000
DayOf(y, r) == IF r.k = 0 THEN DayNum(y, r.m, r.d)
               ELSE IF r.k = 1 THEN NthIn(DayNum(y, r.m, 1), DayNum(y, r.m, DIM(y, r.m)), -1, r.w)
               ELSE IF r.k = 2 THEN NthIn(DayNum(y, r.m, r.d), 0, 1, r.w)
               ELSE NthIn(DayNum(y, r.m, r.d) - 6, 0, 1, r.w)
Nominal(y, r) == DayOf(y, r) * 86400 + r.at
\* universal time of a nominal time, given the offsets in force just before
ToU(n, mode, g, save) == CASE mode = 2 -> n [] mode = 1 -> n - g [] OTHER -> n - g - save
\* the onsets of a rule set in order, up to the last year wanted
Onsets(rs, maxY) == SetToSortSeq(UNION {{<<Nominal(y, rs[i]), i>> : y \in rs[i].f..(IF rs[i].t < maxY THEN rs[i].t ELSE maxY)} : i \in 1..Len(rs)}, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
RECURSIVE Walk(_, _, _, _, _)
Walk(q, rs, i, save, g) == IF i > Len(q) THEN <<>>
                           ELSE LET r == rs[q[i][2]] IN <<[u |-> ToU(q[i][1], r.mode, g, save), s |-> r.save, r |-> q[i][2]]>> \o Walk(q, rs, i + 1, r.save, g)
\* the end of a line whose transitions are T (from index i on), save in force given
RECURSIVE EndOf(_, _, _, _)
EndOf(l, T, i, save) == LET E == ToU(Nominal(l.y, l), l.mode, l.g, save)
                        IN IF i > Len(T) \/ T[i].u >= E THEN E ELSE EndOf(l, T, i + 1, T[i].s)
\* one line in force from instant S on: [q: sequence of <<instant, offset, start of the line>>, e: its end]
LineOf(l, sets, S, maxY) ==
  IF l.r = 0 THEN [q |-> <<<<S, l.g + l.save, 1>>>>, e |-> IF l.u = 0 THEN 0 - NEG ELSE ToU(Nominal(l.y, l), l.mode, l.g, l.save)]
  ELSE LET rs == sets[l.r]
           T == Walk(Onsets(rs, maxY), rs, 1, 0, l.g)
           B == SelectSeq(T, LAMBDA x : x.u <= S)
           A == SelectSeq(T, LAMBDA x : x.u > S)
           s0 == IF B = <<>> THEN 0 ELSE B[Len(B)].s
           E == IF l.u = 0 THEN 0 - NEG ELSE EndOf(l, A, 1, s0)
           In == SelectSeq(A, LAMBDA x : x.u < E)
       IN [q |-> <<<<S, l.g + s0, 1>>>> \o [i \in 1..Len(In) |-> <<In[i].u, l.g + In[i].s, 0>>], e |-> E]
RECURSIVE Lines(_, _, _, _, _)
Lines(ls, sets, i, S, maxY) == IF i > Len(ls) THEN <<>>
                               ELSE LET x == LineOf(ls[i], sets, S, maxY) IN x.q \o Lines(ls, sets, i + 1, x.e, maxY)
\* all that happens: <<instant, offset from then on, 1 for the start of a line>>, the first one from the beginning of time
History(ls, sets, maxY) == Lines(ls, sets, 1, NEG, maxY)
OffAt(H, t) == LET P == {i \in 1..Len(H) : H[i][1] <= t} IN H[CHOOSE i \in P : \A j \in P : j <= i][2]
\* real changes as <<instant, offset before, offset after>>
Changes(H) == LET q == [i \in 1..Len(H) - 1 |-> <<H[i + 1][1], H[i][2], H[i + 1][2]>>] IN SelectSeq(q, LAMBDA x : x[2] # x[3])
\* things that happen less than a day apart
Crowded(H) == \E i \in 2..Len(H) - 1 : H[i + 1][1] < H[i][1] + 86400
=============================================================================
