------------------------------ MODULE P04Trace ------------------------------
EXTENDS RelayRule, TraceBase
VARIABLES l, r, dead
Init == l = 1 /\ dead = TRUE /\ r = RInit("", 0)

OutClauses(e) ==
    Bad("outcome:" \o e.out, e.out = "ok")
    \cup LET want == IF e.ev = "msg" \/ Passes(r, e) THEN 1 ELSE 0
         IN IF Len(e.em) # want THEN {IF want = 1 THEN "not_passed_on_once" ELSE "repeat_passed_on"}
            ELSE IF want = 0 THEN {}
            ELSE LET m == e.em[1]
                 IN Bad("content", m.same) \cup Bad("other_parameters", m.rest)
                    \cup (IF r.kind = "buffer" THEN Bad("delay", m.delay = r.delay)
                          ELSE Bad("sequence_identifier", m.sid = e.sid)
                               \cup Bad("availability", m.av = e.av)
                               \cup (IF e.ev = "msg" THEN {}
                                     ELSE Bad("sequence_number", m.n = e.n) \cup Bad("time_base", m.tb = e.tb)
                                          \cup Bad("clock_mode", m.cm = e.cm)))
Step(e) ==
    IF e.ev = "reset" THEN dead' = FALSE /\ r' = RInit(e.kind, e.delay)
    ELSE IF dead THEN UNCHANGED <<dead, r>>
    ELSE LET bad == OutClauses(e)
         IN Report(l, bad) /\ dead' = (bad # {}) /\ r' = IF e.ev = "doc" THEN RNext(r, e) ELSE r
Next == l <= Len_ /\ Step(Trace[l]) /\ Consumed(l) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, r, dead>>
=============================================================================
