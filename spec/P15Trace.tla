------------------------------ MODULE P15Trace ------------------------------
(***************************************************************************)
(* Text round trips: what is written means what was read, written twice it *)
(* is the same, and equality of the objects is equality of the meanings.   *)
(***************************************************************************)
EXTENDS Harness, CalCanon
Init15(s) == [n |-> 0]
Tree(d) == Read(Lines(d), FALSE)
WrittenWell(d) == AllCRLF(d) /\ Short(d, 75)
Flags(e, S) == {x \in S : ~x[2]}
RT(st, e) ==
  IF e.ok # 1 THEN Bad(st, "error", "read and written")
  ELSE LET a == Tree(e.data)
           b == Tree(e.out)
       IN IF a.res # "ok" THEN Bad(st, "HARNESS-document", a.res)
          ELSE IF b.res # "ok" THEN Bad(st, "written-not-a-calendar", b.res)
          ELSE IF ~WrittenWell(e.out) THEN Bad(st, "line-form", "CRLF, 75 octets")
          ELSE IF Canon(b.root[1]) # Canon(a.root[1]) THEN Bad(st, "changed", [lost |-> CProps(a.root[1]) \ CProps(b.root[1]), new |-> CProps(b.root[1]) \ CProps(a.root[1])])
          ELSE IF e.again # 1 THEN Bad(st, "written-again-differs", "the same text")
          ELSE IF e.reread # 1 THEN Bad(st, "reread-written-differs", "the same text")
          ELSE Check(st, e.eq = 1 /\ e.ne = 0, "not-equal-to-reread", "equal")
Two(st, e) ==
  IF e.ok # 1 THEN Bad(st, "error", "read")
  ELSE LET a == Tree(e.data)
           b == Tree(e.data2)
           same == Canon(a.root[1]) = Canon(b.root[1])
       IN IF a.res # "ok" \/ b.res # "ok" THEN Bad(st, "HARNESS-document", <<a.res, b.res>>)
          ELSE IF (e.eq = 1) # same \/ (e.ne = 0) # same THEN Bad(st, "equality", same)
          ELSE IF ~same THEN OK(st)
          ELSE LET x == Tree(e.out)
                   y == Tree(e.out2)
               IN Check(st, x.res = "ok" /\ y.res = "ok" /\ SameOrder(x.root[1], y.root[1]) /\ Canon(x.root[1]) = Canon(y.root[1]), "written-order", "the same but for repeated properties")
Step15(st, e) == CASE e.op = "rt" -> RT(st, e) [] e.op = "two" -> Two(st, e) [] OTHER -> OK(st)
=============================================================================
