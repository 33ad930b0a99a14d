------------------------------- MODULE TzHist -------------------------------
(***************************************************************************)
(* The caches of a timezone definition as a state machine.  Two            *)
(* observances alternate, A with an onset in every year from 1 on, B in    *)
(* every year from 1 to LastB.  A time is <<year, phase>>; A's onset is at *)
(* phase 2 and B's at phase 5 in local time, one phase earlier in UTC.     *)
(* Each observance keeps its onsets up to the end of some year, the        *)
(* definition keeps all onsets up to a year and a memo of answered times.  *)
(* Checked: every answer equals the answer of a new object, for every      *)
(* history of queries on objects and their copies.  The same module        *)
(* generates the histories replayed on the real code.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Years, LastB, MaxObjs, Depth, Emit
VARIABLES objs, ans, hist
vars == <<objs, ans, hist>>
Phases == 0..6
T(y, p) == y * 10 + p
Times == {T(y, p) : y \in Years, p \in Phases}
RTimes == {T(y, p) : y \in Years, p \in {0, 2, 3, 5}}
YearOfT(t) == t \div 10
OnA(lim) == {T(y, 2) : y \in {k \in 1..20 : k < lim}}
OnB(lim) == {T(y, 5) : y \in {k \in 1..20 : k < lim /\ k <= LastB}}
On(lim) == OnA(lim) \cup OnB(lim)
Latest(S, t, utc) == LET U == {x \in S : (IF utc THEN x - 1 ELSE x) <= t} IN IF U = {} THEN 0 ELSE CHOOSE x \in U : \A y \in U : y <= x
FreshOff(t, utc) == Latest(On(30), t, utc)
FreshRange(lo, hi) == {x \in On(30) : x >= lo /\ x < hi}
NoZone == [max |-> 0, on |-> {}, memo |-> <<>>]
New == [a |-> [lim |-> 0, on |-> {}], b |-> [lim |-> 0, on |-> {}], z |-> NoZone]
Nothing == [k |-> "none"]
Init == objs = <<New>> /\ ans = Nothing /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
\* an observance makes sure its onsets reach to the end of year y
Grow(el, y, F(_)) == IF y + 1 > el.lim THEN [lim |-> y + 1, on |-> F(y + 1)] ELSE el
GrowBoth(ob, y) == [ob EXCEPT !.a = Grow(ob.a, y, OnA), !.b = Grow(ob.b, y, OnB)]
Off(o, t, utc) ==
  LET y == YearOfT(t)
      ob0 == objs[o]
      stale == ob0.z.max = 0 \/ y >= ob0.z.max
      ob1 == IF stale THEN LET g == GrowBoth(ob0, y + 2) IN [g EXCEPT !.z = [max |-> y + 2, on |-> {x \in g.a.on \cup g.b.on : x < T(y + 2, 0)}, memo |-> <<>>]] ELSE ob0
      key == <<t, utc>>
      hit == key \in DOMAIN ob1.z.memo
      got == IF hit THEN ob1.z.memo[key] ELSE Latest(ob1.z.on, t, utc)
  IN /\ objs' = [objs EXCEPT ![o] = [ob1 EXCEPT !.z.memo = (key :> got) @@ ob1.z.memo]]
     /\ ans' = [k |-> "off", got |-> got, want |-> FreshOff(t, utc)]
     /\ Log([op |-> "off", o |-> o, t |-> t, rel |-> IF utc THEN 1 ELSE 0])
Desc(o, t) ==
  LET g == GrowBoth(objs[o], YearOfT(t))
      la == Latest(g.a.on, t, FALSE)
      lb == Latest(g.b.on, t, FALSE)
  IN /\ objs' = [objs EXCEPT ![o] = g]
     /\ ans' = [k |-> "desc", got |-> IF la > lb THEN la ELSE lb, want |-> FreshOff(t, FALSE)]
     /\ Log([op |-> "desc", o |-> o, t |-> t])
Range(o, lo, hi) ==
  LET g == GrowBoth(objs[o], YearOfT(hi)) IN
  /\ objs' = [objs EXCEPT ![o] = g]
  /\ ans' = [k |-> "range", got |-> {x \in g.a.on \cup g.b.on : x >= lo /\ x < hi}, want |-> FreshRange(lo, hi)]
  /\ Log([op |-> "range", o |-> o, lo |-> lo, hi |-> hi])
Dup(o) == /\ Len(objs) < MaxObjs
          /\ objs' = Append(objs, New)          \* a copy starts without caches
          /\ ans' = Nothing
          /\ Log([op |-> "dup", o |-> o])
Next == \/ /\ Len(hist) < Depth
           /\ \/ \E o \in 1..Len(objs), t \in Times, u \in BOOLEAN : Off(o, t, u)
              \/ \E o \in 1..Len(objs), t \in Times : Desc(o, t)
              \/ \E o \in 1..Len(objs), lo \in RTimes, hi \in RTimes : lo < hi /\ Range(o, lo, hi)
              \/ \E o \in 1..Len(objs) : Dup(o)
        \/ /\ Len(hist) = Depth /\ Emit
           /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
           /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<objs, ans>>
Spec == Init /\ [][Next]_vars
AnswerIsFresh == ans.k # "none" => ans.got = ans.want
View == <<objs, ans, Len(hist)>>
=============================================================================
