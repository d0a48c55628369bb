------------------------------ MODULE P07Trace ------------------------------
EXTENDS ReseqRule, TraceBase
VARIABLES l, docs, s, made, dead
vars == <<l, docs, s, made, dead>>
Init == l = 1 /\ dead = TRUE /\ docs = <<>> /\ s = <<>> /\ made = FALSE
Load(x, av) == [n |-> x.n, b |-> DocBegin(x.nodes, av), e |-> DocEnd(x.nodes, av), runs |-> Runs(x.nodes, av)]
Put(e) ==
    LET F == Runs(e.nodes, 0)
        P == SeqInstants(s.D) \cup Instants(F) \cup {WindowFrom(s), WindowTo(s)}
    IN Bad("number", e.n = s.done + 1) \cup Bad("identifier", e.sid = e.want) \cup Bad("not_valid", e.valid)
       \cup Bad("inside", \A t \in P : WindowFrom(s) <= t /\ t < WindowTo(s) => Shown(F, t) = Wanted(s, t))
       \cup Bad("outside", \A t \in P : ~(WindowFrom(s) <= t /\ t < WindowTo(s)) => Shown(F, t) = <<>>)
Clauses(e) ==
    CASE e.ev = "doc" -> Bad("outcome:" \o e.out, e.out = "ok") \cup Bad("emitted", e.em = 0)
      [] e.ev = "cut" -> Bad("outcome:" \o e.out, e.out = "ok")
                         \cup (IF made THEN Bad("count", e.em = 1) \cup (IF e.em = 1 THEN Put(e) ELSE {})
                               ELSE Bad("early", e.em = 0))
Step(e) ==
    IF e.ev = "reset" THEN /\ dead' = FALSE /\ docs' = e.docs /\ made' = (e.init # "")
                           /\ s' = [start |-> e.start, len |-> e.len, done |-> 0, D |-> {}]
    ELSE IF dead THEN UNCHANGED <<docs, s, made, dead>>
    ELSE LET bad == Clauses(e)
         IN /\ Report(l, bad) /\ dead' = (bad # {}) /\ docs' = docs
            /\ made' = (made \/ e.ev = "doc")
            /\ s' = IF e.ev = "doc" THEN [s EXCEPT !.D = Take(@, TLCEval(Load(docs[e.k], e.avail)))]
                    ELSE IF made THEN [s EXCEPT !.done = @ + 1] ELSE s
Next == l <= Len_ /\ Step(Trace[l]) /\ Consumed(l) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
