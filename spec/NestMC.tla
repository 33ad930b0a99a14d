------------------------------- MODULE NestMC -------------------------------
(***************************************************************************)
(* The reader machine by itself, over every line sequence up to MaxLen:    *)
(* it accepts exactly the words of the bracket grammar (defined apart, by  *)
(* reduction), and the tree written out again gives the lines read.        *)
(***************************************************************************)
EXTENDS Nest, TLC
CONSTANTS Lines, MaxLen
VARIABLES word, m
Init == word = <<>> /\ m = NStart
Next == Len(word) < MaxLen /\ \E l \in Lines : word' = Append(word, l) /\ m' = NStep(m, l, "C", FALSE)
Spec == Init /\ [][Next]_<<word, m>>
\* reduction: remove blanks and properties inside, then innermost BEGIN t END t pairs
B(t) == [k |-> "begin", t |-> t]
E(t) == [k |-> "end", t |-> t]
Cut(w, i, j) == SubSeq(w, 1, i - 1) \o SubSeq(w, j + 1, Len(w))
RECURSIVE Reduce(_)
Reduce(w) == LET p == {i \in 1..(Len(w) - 1) : w[i].k = "begin" /\ w[i + 1].k = "end" /\ w[i].t = w[i + 1].t /\ w[i].t # "C"}
             IN IF p = {} THEN w ELSE LET i == CHOOSE i \in p : TRUE IN Reduce(Cut(w, i, i + 1))
Tags(w) == SelectSeq(w, LAMBDA l : l.k \in {"begin", "end"})
NoBlank(w) == SelectSeq(w, LAMBDA l : l.k # "blank")
Grammar(w) == LET x == NoBlank(w) IN
              /\ Len(x) >= 2 /\ x[1] = B("C") /\ x[Len(x)] = E("C")
              /\ \A i \in 1..Len(x) : x[i].k # "junk"
              /\ Reduce(Tags(x)) = <<B("C"), E("C")>>
\* two calendar objects are left open by the property
RECURSIVE Two(_)
Twice(w) == LET x == NoBlank(w) IN \E i \in 2..Len(x) : x[i] = B("C") /\ x[i - 1] = E("C") /\ Grammar(SubSeq(x, 1, i - 1))
Two(w) == Twice(w)
Agree == LET r == NEnd(m).res IN IF Twice(word) THEN r = "free" ELSE (r = "ok") <=> Grammar(word)
RECURSIVE Write(_), WriteAll(_)
Write(n) == <<B(n.t)>> \o n.ps \o WriteAll(n.cs) \o <<E(n.t)>>
WriteAll(q) == IF q = <<>> THEN <<>> ELSE Write(Head(q)) \o WriteAll(Tail(q))
\* nothing is dropped or moved: the components of the tree are those of the text, in order
Mirror == NEnd(m).res = "ok" => Tags(Write(m.root[1])) = Tags(NoBlank(word))
MLines == {B("C"), E("C"), B("V"), E("V"), B("A"), E("A"), [k |-> "prop", n |-> "P", v |-> "1"], [k |-> "blank"], [k |-> "junk"]}
=============================================================================
