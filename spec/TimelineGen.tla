---------------------------- MODULE TimelineGen ----------------------------
(* Behaviours of Timeline with intake variants, for replay: each step offers one document. *)
EXTENDS Timeline, Json

CONSTANTS Steps, Variants

VARIABLES hist, grp

gvars == <<docs, tl, hist, grp>>

GInit == Init /\ hist = <<>> /\ grp = ""

Offer(x, v, g) ==
    /\ Len(hist) < Steps
    /\ hist' = Append(hist, [n |-> x.n, cb |-> x.cb, ce |-> x.ce, v |-> v, ag |-> g])
    /\ LET dup == \E d \in Held(docs) : d.n = x.n
           clash == g # "" /\ grp # "" /\ g # grp
       IN IF v = "ok" /\ ~dup /\ ~clash
          THEN /\ \A d \in docs : d.n # x.n
               /\ Add(x)
               /\ grp' = IF grp = "" THEN g ELSE grp
          ELSE UNCHANGED <<docs, tl, grp>>

GNext == \E x \in NewDocs : \E v \in Variants : \E g \in (IF "group" \in Variants THEN {"", "g", "h"} ELSE {""}) :
            Offer(x, IF v = "group" THEN "ok" ELSE v, g)

Emit == Len(hist) = Steps => PrintT(<<"BEH", ToJson([steps |-> hist])>>)
=============================================================================
