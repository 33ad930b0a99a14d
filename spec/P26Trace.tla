------------------------------ MODULE P26Trace ------------------------------
(***************************************************************************)
(* A session is a zone with its rule sets (numbers and the lines that say  *)
(* the same), compiled for ranges of years.                                *)
(***************************************************************************)
EXTENDS ZoneData, Harness
\* 24:00 taken for 23:59:59 (a known finding, so that nothing else hides behind it)
Early(r) == IF r.at = 86400 THEN [r EXCEPT !.at = 86399] ELSE r
Init26(s) == TLCEval([h |-> History(s.init.ls, s.init.sets, s.init.last),
                      h24 |-> History(s.init.ls, [i \in 1..Len(s.init.sets) |-> [j \in 1..Len(s.init.sets[i]) |-> Early(s.init.sets[i][j])]], s.init.last)])
Jan1(y) == DayNum(y, 1, 1) * 86400
YearAt(t) == YearOf(t \div 86400)
InRange(e, t) == YearAt(t) >= e.miny /\ YearAt(t) < e.maxy
Want(h, e) == SelectSeq(Changes(h), LAMBDA x : x[1] > NEG /\ InRange(e, x[1]))
\* what is generated begins with the first thing that happens in the range (line starts are not
\* held back by its end), or with the state before it when nothing happens in it
Begin(st, e) == LET H == st.h
                    B == {i \in 2..Len(H) : YearAt(H[i][1]) >= e.miny /\ (H[i][3] = 1 \/ YearAt(H[i][1]) < e.maxy)}
                IN IF B = {} THEN NEG ELSE H[CHOOSE i \in B : \A j \in B : i <= j][1]
Step26(st, e) ==
  IF Crowded(st.h) THEN OKStop(st)
  ELSE IF e.ok = 0 THEN Bad(st, "error", "no error")
  ELSE IF e.op = "expand"
  THEN LET got == SelectSeq(e.got, LAMBDA x : x[1] > NEG /\ x[2] # x[3] /\ InRange(e, x[1])) IN
       IF got # Want(st.h, e) THEN Bad(st, IF got = Want(st.h24, e) THEN "24:00" ELSE "transitions", Want(st.h, e)) ELSE OK(st)
  ELSE IF e.op = "files" /\ (ToSet(e.names) # ToSet(e.wantnames) \/ Len(e.names) # Len(e.wantnames)) THEN Bad(st, "files", e.wantnames)
  ELSE IF e.op = "files" /\ e.links # e.wantlinks THEN Bad(st, "links", e.wantlinks)
  ELSE IF e.op \in {"vtz", "files"}
  THEN LET beg == Begin(st, e)
           bad == SelectSeq(IF e.op = "vtz" THEN e.asked ELSE FlattenSeq(e.tables), LAMBDA x : InRange(e, x[1]) /\ x[1] >= beg /\ x[2] # OffAt(st.h, x[1])) IN
       IF bad # <<>> THEN Bad(st, IF \A i \in 1..Len(bad) : bad[i][2] = OffAt(st.h24, bad[i][1]) THEN "24:00" ELSE "offsets", [i \in 1..(IF Len(bad) > 5 THEN 5 ELSE Len(bad)) |-> <<bad[i], OffAt(st.h, bad[i][1])>>]) ELSE OK(st)
  ELSE IF e.op = "text"
  THEN IF e.gen # e.lines THEN Bad(st, "written", e.lines)
       ELSE IF e.eq # 1 THEN Bad(st, "read-back", "equal") ELSE OK(st)
  ELSE Bad(st, "unknown", "")
=============================================================================
