------------------------------ MODULE P06Trace ------------------------------
(* docs: the documents of the history; D: those in the sequence *)
EXTENDS PresentRule, TraceBase
VARIABLES l, docs, D, dead
Init == l = 1 /\ dead = TRUE /\ docs = <<>> /\ D = {}
Load(x) == [n |-> x.n, b |-> DocBegin(x.nodes, x.avail), e |-> DocEnd(x.nodes, x.avail),
            runs |-> Runs(x.nodes, x.avail)]
Compare(F, e, Want(_), pts) ==
    LET P == pts \cup Instants(F) \cup ({e.from, e.to} \ {None})
    IN Bad("inside", \A t \in P : InRange(t, e.from, e.to) => Shown(F, t) = Want(t))
       \cup Bad("outside", \A t \in P : ~InRange(t, e.from, e.to) => Shown(F, t) = <<>>)
Fragment(e, Want(_), pts) ==
    IF e.out # "ok" THEN {"outcome:" \o e.out}
    ELSE Bad("source_changed", e.same) \cup Bad("not_valid", e.valid)
         \cup Compare(Runs(e.nodes, 0), e, Want, pts)
Clauses(e) ==
    CASE e.ev = "doc" -> Fragment(e, LAMBDA t : Shown(docs[e.k].runs, t), Instants(docs[e.k].runs))
      [] e.ev = "seq" -> Fragment(e, LAMBDA t : SeqShown(D, t), SeqInstants(D))
      [] e.ev = "add" -> Bad("add:" \o e.out, e.out = "ok")
Step(e) ==
    IF e.ev = "reset" THEN /\ dead' = FALSE /\ D' = {}
                           /\ docs' = [k \in DOMAIN e.docs |-> TLCEval(Load(e.docs[k]))]
    ELSE IF dead THEN UNCHANGED <<dead, docs, D>>
    ELSE LET bad == Clauses(e)
         IN Report(l, bad) /\ dead' = (bad # {}) /\ docs' = docs
            /\ D' = IF e.ev = "add" THEN D \cup {docs[e.k]} ELSE D
Next == l <= Len_ /\ Step(Trace[l]) /\ Consumed(l) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, docs, D, dead>>
=============================================================================
