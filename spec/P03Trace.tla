------------------------------ MODULE P03Trace ------------------------------
(* Values in text and jCal form: parse to their meaning, write back, refuse garbage. *)
EXTENDS ValueText, Harness
InitSt_(s) == [x |-> 0]
JType(t) == CASE t = "dt" -> "dtx" [] t = "off" -> "offx" [] OTHER -> t
NoDash(t) == Subst(Subst(t, "-", ""), ":", "")
JV(type, e) == IF type = "per" THEN IF Len(e.json) # 2 THEN No
                                    ELSE LET a == ExtVal(e.json[1]) b == ExtVal(e.json[2]) IN
                                         PerVal(NoDash(e.json[1]) \o "/" \o (IF b.k = "no" THEN e.json[2] ELSE NoDash(e.json[2])), TRUE)
               ELSE IF Len(e.json) # 1 THEN No ELSE PVal(JType(type), e.json[1], TRUE)
\* a period is also its end and its length
Derived(type, v, e) == type = "per" => (IF v.dur = 0 THEN e.pend = v.end ELSE e.plen = v.len)
Step_(st, e) ==
  LET type == e.type
      p == PVal(type, e.text, e.strict = 1)
  IN IF p.k = "free" THEN OK(st)
     ELSE IF p.k = "no" THEN Check(st, e.ok = 0, "ill-formed-accepted", "an error")
     ELSE IF e.ok = 0 THEN Check(st, p.k = "if", "well-formed-rejected", p.v)
     ELSE IF e.v # p.v THEN Bad(st, "parsed-value", p.v)
     ELSE IF ~Derived(type, p.v, e) THEN Bad(st, "parsed-value-derived", p.v)
     ELSE LET g == PVal(type, e.gen, TRUE) IN
     IF g.k # "ok" \/ g.v # p.v THEN Bad(st, "generated-text", p.v)
     ELSE IF e.again # p.v \/ ~e.eq THEN Bad(st, "reread-equal", p.v)
     ELSE LET j == JV(type, e) IN
     IF j.k # "ok" \/ j.v # p.v THEN Bad(st, "jcal-value", p.v)
     ELSE IF e.jread # p.v \/ ~e.jeq THEN Bad(st, "jcal-reread", p.v)
     ELSE OK(st)
=============================================================================
