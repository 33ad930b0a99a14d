------------------------------ MODULE P25Trace ------------------------------
(***************************************************************************)
(* vCards: streams are split into the cards the machine gives, what is     *)
(* written means what was read or built, structured values are seen        *)
(* component by component, equality is equality of meanings.               *)
(***************************************************************************)
EXTENDS Harness, VCard
Init25(s) == [n |-> 0]
WellV(d) == AllCRLF(d) /\ Short(d, 75)
One(d) == LET m == Stream(d) IN IF m.ok /\ Len(m.cards) = 1 THEN [ok |-> TRUE, c |-> m.cards[1]] ELSE [ok |-> FALSE, c |-> <<>>]
SeenE(q) == BagV([i \in 1..Len(q) |-> <<q[i].n, q[i].v>>])
JoinAll(q) == Flat(q)
RT(st, e) ==
  LET a == Stream(e.data) IN
  IF ~a.ok THEN Check(st, e.ok # 1, "accepted", a.why)
  ELSE IF e.ok # 1 THEN Bad(st, "error", Len(a.cards))
  ELSE IF Len(e.outs) # Len(a.cards) THEN Bad(st, "cards", Len(a.cards))
  ELSE LET bad == {i \in 1..Len(e.outs) : ~One(e.outs[i]).ok}
           ill == {i \in 1..Len(e.outs) : ~WellV(e.outs[i])}
           chg == {i \in 1..Len(e.outs) : VCanon(One(e.outs[i]).c) # VCanon(a.cards[i])}
           unseen == {i \in 1..Len(e.seen) : SeenE(e.seen[i]) # Seen(a.cards[i])}
       IN IF bad # {} THEN Bad(st, "written-not-a-card", bad)
          ELSE IF ill # {} THEN Bad(st, "line-form", ill)
          ELSE IF chg # {} THEN LET i == CHOOSE x \in chg : TRUE IN Bad(st, "changed", [lost |-> VCanon(a.cards[i]) \ VCanon(One(e.outs[i]).c), new |-> VCanon(One(e.outs[i]).c) \ VCanon(a.cards[i])])
          ELSE IF unseen # {} THEN LET i == CHOOSE x \in unseen : TRUE IN Bad(st, "components", Seen(a.cards[i]))
          ELSE IF e.again # 1 THEN Bad(st, "written-again-differs", "the same text")
          ELSE IF e.reread # 1 THEN Bad(st, "reread-written-differs", "the same text")
          ELSE Check(st, e.eq = 1 /\ e.ne = 0, "not-equal-to-reread", "equal")
Two(st, e) ==
  IF e.ok # 1 THEN Bad(st, "error", "read")
  ELSE LET a == One(e.data)
           b == One(e.data2)
           same == VCanon(a.c) = VCanon(b.c)
       IN IF ~a.ok \/ ~b.ok THEN Bad(st, "HARNESS-card", <<a.ok, b.ok>>)
          ELSE Check(st, (e.eq = 1) = same /\ (e.ne = 0) = same /\ (same => e.hash = 1), "equality", same)
\* a card built through the interface: want is the list [g, n, v] of what was put in
Want(w) == <<w.g, w.n, IF Up(w.n) \in {V_N, V_ADR, V_ORG, V_NICKNAME, V_CATEGORIES} THEN Marked(w.v) ELSE w.v[1]>>
\* the name as people write it: prefix, given, additional, family, suffix; what is empty is left out
NameOf(v) == LET q == SelectSeq([k \in 1..5 |-> JoinC(v[<<4, 2, 3, 1, 5>>[k]], SP)], LAMBDA x : x # <<>>) IN JoinC(q, SP)
Full(w) == LET q == SelectSeq(w, LAMBDA x : Up(x.n) = V_N) IN [i \in 1..Len(q) |-> NameOf(q[i].v)]
Api(st, e) ==
  IF e.ok # 1 THEN Bad(st, "error", "built and written")
  ELSE LET b == One(e.out)
           got == BagV([i \in 1..Len(b.c) |-> <<b.c[i].g, b.c[i].n, VMeaning(b.c[i])>>])
       IN IF ~b.ok THEN Bad(st, "written-not-a-card", "")
          ELSE IF ~WellV(e.out) THEN Bad(st, "line-form", "")
          ELSE IF got # BagV([i \in 1..Len(e.want) |-> Want(e.want[i])]) THEN Bad(st, "built", got)
          ELSE IF e.names # Full(e.want) THEN Bad(st, "full-name", Full(e.want))
          ELSE Check(st, e.get = 1 /\ e.eq = 1, "accessors", "what was put in")
\* the default properties of a new card
New(st, e) == IF e.ok # 1 THEN Bad(st, "error", "built")
              ELSE LET b == One(e.out) IN Check(st, b.ok /\ {Up(b.c[i].n) : i \in 1..Len(b.c)} = {V_VERSION, <<80,82,79,68,73,68>>}, "defaults", "VERSION and PRODID")
Step25(st, e) == CASE e.op = "rt" -> RT(st, e) [] e.op = "two" -> Two(st, e) [] e.op = "api" -> Api(st, e) [] e.op = "new" -> New(st, e) [] OTHER -> OK(st)
=============================================================================
