------------------------------ MODULE P12Trace ------------------------------
(***************************************************************************)
(* A component is its kind and the bag of its timing properties.  Start,   *)
(* end, duration and whole-day status are functions of that bag (RFC 5545  *)
(* 3.6); every editing call must leave a bag whose derived timing is the   *)
(* one asked for.  Sessions with init.what = "recur" edit the recurrence   *)
(* set instead and are judged by RecurSet.                                 *)
(***************************************************************************)
EXTENDS P10Trace
None == <<>>
\* a timing bag: dtstart, dtend, due: <<>> or <<date>>; dur: <<>> or <<seconds>>
AddSec(t, n) == Norm([t EXCEPT !.s = @ + n])
EndProp(kind) == IF kind = "VTODO" THEN "due" ELSE "dtend"
HasStart(b) == b.dtstart # None
EffEnd(kind, b) ==
  LET ex == b[EndProp(kind)]
  IN IF ex # None THEN ex
     ELSE IF HasStart(b) /\ b.dur # None THEN <<AddSec(b.dtstart[1], b.dur[1])>>
     ELSE IF HasStart(b) THEN <<IF b.dtstart[1].do = 1 THEN AddSec(b.dtstart[1], 86400) ELSE b.dtstart[1]>>
     ELSE None
\* to-dos without a due time have no effective end to speak of; nor have free-busy components without an end
EndJudged(kind, b) == EffEnd(kind, b) # None /\ ~(kind = "VFREEBUSY" /\ b.dtend = None /\ b.dur = None)
SameT(a, b) == a.y = b.y /\ a.m = b.m /\ a.d = b.d /\ a.h = b.h /\ a.n = b.n /\ a.s = b.s /\ a.do = b.do /\ a.tz = b.tz
SameO(a, b) == Len(a) = Len(b) /\ (a # <<>> => SameT(a[1], b[1]))
InsAbs(t) == <<DN(t) * 86400 + t.h * 3600 + t.n * 60 + t.s - t.off>>
After(a, b) == LET x == Rel(a, DN(b)) - a.off  y == Rel(b, DN(b)) - b.off IN x > y
HasDue(kind, b) == b[EndProp(kind)] # None \/ b.dur # None
\* observed start and end (an edit keeps its arguments under start and end)
OStart(o) == IF "ostart" \in DOMAIN o THEN o.ostart ELSE o.start
OEnd(o) == IF "oend" \in DOMAIN o THEN o.oend ELSE o.end
ObsVerdict(st, b, o) ==
  IF o.ok # 1 THEN BadStop(st, "error", "the call succeeds")
  ELSE IF o.hasstart # (IF HasStart(b) THEN 1 ELSE 0) THEN Bad(st, "has-start", b)
  ELSE IF HasStart(b) /\ ~SameT(OStart(o), b.dtstart[1]) THEN Bad(st, "start", b.dtstart)
  ELSE IF EndJudged(st.kind, b) /\ ~SameT(OEnd(o), EffEnd(st.kind, b)[1]) THEN Bad(st, "end", EffEnd(st.kind, b))
  ELSE IF st.kind = "VTODO" /\ (b.due # None \/ HasStart(b)) /\ o.hasend # (IF HasDue(st.kind, b) THEN 1 ELSE 0) THEN Bad(st, "has-end", b)
  ELSE IF HasStart(b) /\ o.usedur # (IF b[EndProp(st.kind)] = None /\ b.dur # None THEN 1 ELSE 0) /\ st.loaded = 1 THEN Bad(st, "use-duration", b)
  ELSE OK(st)
\* the bag of timing properties left by an editing call
BagSound(kind, b) == /\ (kind = "VTODO" => b.dtend = None) /\ (kind # "VTODO" => b.due = None)
                     /\ ~(b[EndProp(kind)] # None /\ b.dur # None)
EditVerdict(st, e, wantstart, wantend) ==
  LET b == e.bag
  IN IF e.ok # 1 THEN BadStop(st, "error", "the call succeeds")
     ELSE IF e.dups # 0 \/ ~BagSound(st.kind, b) THEN BadStop(st, "properties", "one property each, none left over")
     ELSE IF ~SameO(b.dtstart, wantstart) THEN Bad(st, "properties-start", wantstart)
     ELSE IF wantend # None /\ ~SameO(EffEnd(st.kind, b), wantend) THEN Bad(st, "properties-end", wantend)
     ELSE ObsVerdict([st EXCEPT !.bag = b, !.loaded = 0], b, e)
NoTiming == [dtstart |-> None, dtend |-> None, due |-> None, dur |-> None]
TimingStep(st, e) ==
  CASE e.op = "load" -> IF e.ok # 1 THEN BadStop(st, "load-error", "the text loads") ELSE ObsVerdict([st EXCEPT !.bag = e.given, !.loaded = 1], e.given, e)
    [] e.op = "startend" ->
         IF After(e.end, e.start) THEN EditVerdict(st, e, <<e.start>>, <<e.end>>)
         ELSE IF e.ok = 1 /\ EffEnd(st.kind, e.bag) # None /\ ~After(EffEnd(st.kind, e.bag)[1], e.start) THEN Bad(st, "end-before-start", e.start)
         ELSE EditVerdict(st, e, <<e.start>>, None)
    [] e.op = "startdur" -> EditVerdict(st, e, <<e.start>>, <<AddSec(e.start, e.n)>>)
    [] e.op = "due" -> EditVerdict(st, e, None, <<e.end>>)
    [] e.op = "none" -> IF e.ok = 1 /\ e.bag # NoTiming THEN Bad(st, "properties", NoTiming) ELSE EditVerdict(st, e, None, None)
    [] e.op \in {"reload", "dup"} ->       \* written and read back, or copied: the same timing
         IF e.ok # 1 THEN BadStop(st, "error", "the text loads")
         ELSE IF e.bag # st.bag THEN Bad(st, "properties-changed", st.bag)
         ELSE ObsVerdict(IF e.op = "reload" THEN [st EXCEPT !.loaded = 1] ELSE st, st.bag, e)
    [] OTHER -> OK(st)
RFields == {"rules", "exrules", "rdates", "exdates", "rpers", "expers"}
MinCut(st, at) == IF st.cut = <<>> THEN <<at>> ELSE IF After(st.cut[1], at) THEN <<at>> ELSE st.cut
RecurStep(st, e) ==
  CASE e.op = "set" -> IF e.ok # 1 THEN BadStop(st, "error", "the call succeeds")
                       ELSE OK([f \in DOMAIN st |-> IF f \in RFields THEN e.set[f] ELSE IF f = "cut" THEN <<>> ELSE st[f]])
    [] e.op = "exdate" -> IF e.ok # 1 THEN BadStop(st, "error", "the call succeeds") ELSE OK([st EXCEPT !.exdates = Append(@, e.at)])
    [] e.op = "cut" -> IF e.ok # 1 THEN BadStop(st, "error", "the call succeeds") ELSE OK([st EXCEPT !.cut = MinCut(st, e.at)])
    [] e.op = "expand" -> ExpandStep(st, e)
    [] OTHER -> IF e.ok # 1 THEN BadStop(st, "error", "the call succeeds") ELSE OK(st)
Init12(s) == IF s.init.what = "timing" THEN [kind |-> s.init.kind, bag |-> NoTiming, loaded |-> 0]
             ELSE InitSt_(s)
Step12(st, e) == IF "kind" \in DOMAIN st THEN TimingStep(st, e) ELSE RecurStep(st, e)
=============================================================================
