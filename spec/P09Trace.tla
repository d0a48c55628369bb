------------------------------ MODULE P09Trace ------------------------------
EXTENDS RetimeRule, LockRule, TraceBase
VARIABLES l, s, delay, dead
Init == l = 1 /\ dead = TRUE /\ delay = 0 /\ s = LInit("", "", "", {})
Emitted(g, d) ==
    Bad("identifier", d.sid = s.own) \cup Bad("number", d.n = g.n) \cup Bad("root", d.root = g.root)
    \cup Bad("styles", d.styles = g.styles) \cup Bad("regions", d.regions = g.regions)
    \cup Bad("processing", d.ap = g.ap + 1)
    \cup Bad("content", SameContent(g.nodes, d.nodes))
    \cup Bad("runs", SameRuns(g.nodes, d.nodes, delay))
    \cup Bad("span", SameSpan(g.nodes, d.nodes, delay))
DocClauses(e) ==
    LET want == IF Refused(s, e) THEN "unexpected" ELSE "ok"
    IN Bad("outcome:" \o want \o "/" \o e.out, e.out = want)
       \cup Bad("emissions", e.em = Emissions(s, e))
       \cup Bad("not_valid", e.valid)
       \cup UNION {Emitted(e.given, e.doc[j]) : j \in DOMAIN e.doc}
MsgClauses(e) == Bad("message:" \o e.out, e.out = "ok") \cup Bad("message", e.em = 1 /\ e.same)
Step(e) ==
    IF e.ev = "reset" THEN dead' = FALSE /\ s' = LInit("retime", e.own, "", {}) /\ delay' = e.delay
    ELSE IF dead THEN UNCHANGED <<dead, s, delay>>
    ELSE LET bad == IF e.ev = "doc" THEN DocClauses(e) ELSE MsgClauses(e)
         IN Report(l, bad) /\ dead' = (bad # {}) /\ s' = (IF e.ev = "doc" THEN LNext(s, e) ELSE s) /\ UNCHANGED delay
Next == l <= Len_ /\ Step(Trace[l]) /\ Consumed(l) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s, delay, dead>>
=============================================================================
