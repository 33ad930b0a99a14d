------------------------------- MODULE CalCanon -------------------------------
(***************************************************************************)
(* What a calendar tree means, up to notation: a property is its name, the *)
(* bag of its parameters, the value type in force and the value by         *)
(* meaning; a component its type, the bag of its properties and the bag of *)
(* its components.  All canonical forms are tuples of octet sequences.     *)
(***************************************************************************)
EXTENDS CalTree, ICalTypes
BagOf(q) == LET S == {q[i] : i \in 1..Len(q)} IN {<<x, Cardinality({i \in 1..Len(q) : q[i] = x})>> : x \in S}
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
ValuePar(l) == LET q == SelectSeq(l.ps, LAMBDA p : Up(p.n) = N_VALUE) IN IF q = <<>> THEN <<>> ELSE Up(q[1].v[1])
DefType(n) == IF n \in PNamesKnown THEN PTypeOf[n] ELSE "UNKNOWN"
EType(l) == LET v == ValuePar(l) IN IF v = <<>> THEN DefType(l.n) ELSE IF v \in VNames THEN VTypeOf[v] ELSE "OTHER"
TDecR(t) == LET r == TextDec(t, 2, 2) IN IF r.lone THEN Append(r.v, BSL) ELSE r.v
DecSeq(q) == [i \in 1..Len(q) |-> TDecR(q[i])]
\* the value by meaning, as a sequence of octet sequences
CValue(l) == LET t == EType(l) IN
  IF t = "TEXT" THEN IF l.n \in ListProps THEN DecSeq(Items(l.v, COMMA))
                     ELSE IF l.n = N_REQUEST_STATUS THEN DecSeq(Items(l.v, SEMI))
                     ELSE <<TDecR(l.v)>>
  ELSE IF t = "RECUR" THEN SetToSortSeq({Items(Up(l.v), SEMI)[i] : i \in 1..Len(Items(l.v, SEMI))}, LexLess)
  ELSE <<l.v>>
\* VALUE itself is expressed by the type, unless it names no known type
CPars(l) == LET q == SelectSeq(l.ps, LAMBDA p : Up(p.n) # N_VALUE \/ EType(l) = "OTHER") IN BagOf([i \in 1..Len(q) |-> <<Up(q[i].n), q[i].v>>])
CProp(l) == <<l.raw, EType(l), CPars(l), CValue(l)>>
CProps(n) == BagOf([i \in 1..Len(n.ps) |-> CProp(n.ps[i])])
RECURSIVE Canon(_)
Canon(n) == <<n.t, CProps(n), BagOf([i \in 1..Len(n.cs) |-> Canon(n.cs[i])])>>
\* --- the order in which things are written: names in the same order, components in the same
\* order except those that keep the order they were read in (unknown ones, observances)
Kept(t) == t \notin {T_VEVENT, T_VTODO, T_VJOURNAL, T_VFREEBUSY, T_VALARM, T_VTIMEZONE, T_AVAILABLE, T_VVOTER, T_VOTE, T_VPOLL, T_VAVAILABILITY}
RECURSIVE Ordered(_)
Ordered(n) == <<n.t, [i \in 1..Len(n.ps) |-> Up(n.ps[i].n)], CProps(n),
                [i \in 1..Len(n.cs) |-> IF Kept(n.cs[i].t) THEN <<n.cs[i].t>> ELSE Ordered(n.cs[i])],
                BagOf([i \in 1..Len(n.cs) |-> Canon(n.cs[i])])>>
SameOrder(a, b) == Ordered(a) = Ordered(b)
=============================================================================
