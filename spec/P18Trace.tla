------------------------------ MODULE P18Trace ------------------------------
EXTENDS LockRule, TraceBase
VARIABLES l, s, dead
Init == l = 1 /\ dead = TRUE /\ s = LInit("", "", "", {})
DocClauses(e) ==
    LET want == IF Refused(s, e) THEN "unexpected" ELSE "ok"
    IN Bad("outcome:" \o want \o "/" \o e.out, e.out = want)
       \cup Bad("emissions", e.em = Emissions(s, e))
       \cup (IF Holds(s) THEN Bad("held", Range_(e.held) = LNext(s, e).held)
                              \cup Bad("held_sequence", e.hsid \in {"", LNext(s, e).lock}) ELSE {})
(* a segment drawn from a resequencer shows nothing but its own sequence *)
SegClauses(e) == Bad("segment_outcome", e.out = "ok")
                 \cup Bad("segment_emitted", e.em = (IF s.lock = "" THEN 0 ELSE 1))
                 \cup Bad("foreign_text", Range_(e.shown) \subseteq {s.lock})
Step(e) ==
    IF e.ev = "reset" THEN dead' = FALSE /\ s' = LInit(e.kind, "OUT", e.lock, Range_(e.held))
    ELSE IF dead THEN UNCHANGED <<dead, s>>
    ELSE LET bad == IF e.ev = "doc" THEN DocClauses(e) ELSE SegClauses(e)
         IN Report(l, bad) /\ dead' = (bad # {}) /\ s' = IF e.ev = "doc" THEN LNext(s, e) ELSE s
Next == l <= Len_ /\ Step(Trace[l]) /\ Consumed(l) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s, dead>>
=============================================================================
