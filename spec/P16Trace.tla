------------------------------ MODULE P16Trace ------------------------------
(***************************************************************************)
(* Folding and unfolding.  Written text is judged physical line by         *)
(* physical line against the logical lines it must carry; read text is     *)
(* unfolded by the specification and compared with what the code saw.      *)
(***************************************************************************)
EXTENDS Harness, ICalText
Init16(s) == [n |-> 0]
Set16(q) == {q[i] : i \in 1..Len(q)}
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Write(st, e) ==
  LET q == WrittenPhys(e.out)
      g == Groups(q)
      ls == [j \in 1..Len(g) |-> JoinGroup(g[j])]
  IN IF e.ok # 1 THEN Bad(st, "write-error", "the line is written")
     ELSE IF ~AllCRLF(e.out) THEN Bad(st, "line-end", "CRLF")
     ELSE IF ~Short(e.out, 75) THEN Bad(st, "too-long", 75)
     ELSE IF e.whole = 1 /\ ls # e.lines THEN Bad(st, "content", ls)
     ELSE IF e.whole = 0 /\ \E x \in Set16(e.lines) : Count(ls, x) # Count(e.lines, x) THEN Bad(st, "content-lost", ls)
     ELSE IF \E j \in 1..Len(g) : \E p \in Cuts(g[j]) : InsideChar(ls[j], p) THEN Bad(st, "split-character", {j \in 1..Len(g) : \E p \in Cuts(g[j]) : InsideChar(ls[j], p)})
     ELSE OK(st)
Read(st, e) ==
  LET ls == Unfold(e.data) IN
  IF e.ok # 1 THEN Bad(st, "read-error", ls)
  ELSE IF e.how = "cal" THEN Check(st, e.got = SubSeq(ls, 4, Len(ls) - 1), "read-lines", ls)
  ELSE Check(st, e.got = ls, "read-lines", ls)
Step16(st, e) == CASE e.op = "write" -> Write(st, e) [] e.op = "read" -> Read(st, e) [] OTHER -> OK(st)
=============================================================================
