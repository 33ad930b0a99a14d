------------------------------ MODULE NestGen ------------------------------
(* Writes line sequences of the reader machine for replay on the real reader: every one up to GenLen (BFS), and long random ones (simulation). *)
EXTENDS Nest, TLC, Json, IOUtils, CSV
CONSTANTS MaxLen, Rnd
VARIABLES word, m, fin
Ts == {"VCALENDAR", "VEVENT", "VALARM"}
Ls == {[k |-> "begin", t |-> t] : t \in Ts} \cup {[k |-> "end", t |-> t] : t \in Ts} \cup {[k |-> "prop"], [k |-> "blank"], [k |-> "junk"]}
Emit(w) == CSVWrite("%1$s", <<ToJson(w)>>, IOEnv.OUT)
Init == word = <<>> /\ m = NStart /\ fin = FALSE
Full(l) == IF l.k = "prop" THEN [k |-> "prop", n |-> "P", v |-> "1"] ELSE l
\* enumeration: dead words are not continued by more than one line
Go == ~fin /\ Len(word) < MaxLen /\ (Rnd \/ m.res = "run")
      /\ \E l \in Ls : /\ (Rnd => (NStep(m, Full(l), "VCALENDAR", FALSE).res = "run" \/ RandomElement(1..10) = 1))
                       /\ word' = Append(word, l) /\ m' = NStep(m, Full(l), "VCALENDAR", FALSE) /\ fin' = FALSE
                       /\ (Rnd \/ Emit(word'))
Stop == Rnd /\ ~fin /\ Len(word) >= 3 /\ (m.ph = "out" \/ Len(word) = MaxLen \/ RandomElement(1..15) = 1) /\ Emit(word) /\ fin' = TRUE /\ UNCHANGED <<word, m>>
Next == Go \/ Stop
Spec == Init /\ [][Next]_<<word, m, fin>>
=============================================================================
