------------------------------- MODULE ZoneMC -------------------------------
(***************************************************************************)
(* The meaning of zone lines and rules, checked on all small zones: one    *)
(* line of local mean time, then a line under a set of two rules, over     *)
(* four years.  What is checked are laws the definition has to obey        *)
(* whatever way it is computed.                                            *)
(***************************************************************************)
EXTENDS ZoneData, TLC
CONSTANT Deep
VARIABLES z
R(m, k, d, w, at, mode, save) == [f |-> 1970, t |-> 1972, m |-> m, k |-> k, d |-> d, w |-> w, at |-> at, mode |-> mode, save |-> save]
RulesOn == {R(3, k, 7, w, at, mode, 3600) : k \in 0..3, w \in {0, 4}, at \in (IF Deep THEN {0, 7200, 84600} ELSE {84600}), mode \in 0..2}
RulesOff == {R(10, k, 25, 0, at, mode, 0) : k \in {0, 1}, at \in (IF Deep THEN {3600, 10800} ELSE {3600}), mode \in (IF Deep THEN 0..2 ELSE {0, 2})}
Line(g, r, u, y, m, d, at, mode) == [g |-> g, r |-> r, save |-> 0, u |-> u, y |-> y, m |-> m, k |-> 0, d |-> d, w |-> 0, at |-> at, mode |-> mode]
Firsts == {Line(600, 0, 1, y, 6, 15, 7200, mode) : y \in {1969, 1971}, mode \in 0..2}
Seconds == {Line(g, 1, 0, 0, 1, 1, 0, 0) : g \in {-36000, 3600, 20700}}
Init == z \in [a : RulesOn, b : RulesOff, l1 : Firsts, l2 : Seconds]
Next == UNCHANGED z
TOP == 1973
Sets == <<<<z.a, z.b>>>>
H == History(<<z.l1, z.l2>>, Sets, TOP)
\* things happen one after the other
Ordered == \A i \in 2..Len(H) : H[i - 1][1] < H[i][1]
\* each change starts from the offset the one before left
Chained == LET C == Changes(H) IN \A i \in 2..Len(C) : C[i][2] = C[i - 1][3]
\* every onset of a rule after the first line's end is there, at the time its clock shows just before
Shown == LET E == H[2][1] IN
         \A r \in {z.a, z.b}, y \in 1970..1972 :
           LET n == Nominal(y, r) IN
           n - 90000 > E => \E i \in 3..Len(H) : LET before == H[i - 1][2] g == z.l2.g IN
                               /\ H[i][2] = g + r.save
                               /\ CASE r.mode = 0 -> H[i][1] + before = n [] r.mode = 1 -> H[i][1] + g = n [] OTHER -> H[i][1] = n
\* the line ends when the clock of that line says so
Ends == LET n == Nominal(z.l1.y, z.l1) IN H[2][1] = IF z.l1.mode = 2 THEN n ELSE n - z.l1.g
\* a rule in two parts is the same rule
Halves(r) == <<[r EXCEPT !.t = 1970], [r EXCEPT !.f = 1971]>>
Split == Changes(History(<<z.l1, z.l2>>, <<Halves(z.b) \o Halves(z.a)>>, TOP)) = Changes(H)
\* a line that ends and goes on as it was changes nothing
Cut == \A mode \in 0..2, m \in {2, 5, 12} :
         Changes(History(<<z.l1, [z.l2 EXCEPT !.u = 1, !.y = 1972, !.m = m, !.d = 17, !.at = 4000, !.mode = mode], z.l2>>, Sets, TOP)) = Changes(H)
\* an offset just before and at a change
Around == LET C == Changes(H) IN \A i \in 1..Len(C) : OffAt(H, C[i][1]) = C[i][3] /\ OffAt(H, C[i][1] - 1) = C[i][2]
=============================================================================
