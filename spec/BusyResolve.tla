----------------------------- MODULE BusyResolve -----------------------------
(***************************************************************************)
(* The sweep that turns overlapping items into disjoint ones, item by      *)
(* item, as a state machine: whatever the items, the outcome covers the    *)
(* same busy time with the strongest types and never twice.                *)
(***************************************************************************)
EXTENDS BusyTime
CONSTANTS MaxT, MaxN
VARIABLES items, cur, out
vars == <<items, cur, out>>
Item == {i \in (0..3) \X (0..MaxT) \X (0..MaxT) : i[2] < i[3]}
Init == (\E f \in [1..MaxN -> Item] : items = {f[i] : i \in 1..MaxN}) /\ cur = 0 /\ out = <<>>
Step == /\ cur < MaxT
        /\ cur' = cur + 1 /\ UNCHANGED items
        /\ LET ty == At(items, cur) n == Len(out) IN
           out' = IF ty = 0 THEN out
                  ELSE IF n > 0 /\ out[n][1] = ty /\ out[n][3] = cur THEN [out EXCEPT ![n] = <<ty, @[2], cur + 1>>]
                  ELSE Append(out, <<ty, cur, cur + 1>>)
Spec == Init /\ [][Step]_vars
Covers == Same(Busy(items), {out[i] : i \in DOMAIN out}, 0, cur)
Disjoint == Apart(out)
Ordered == \A i \in 1..(Len(out) - 1) : out[i][3] < out[i+1][2] \/ (out[i][3] = out[i+1][2] /\ out[i][1] # out[i+1][1])
=============================================================================
