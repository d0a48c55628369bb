------------------------------ MODULE P08Trace ------------------------------
(* want: for every text of the documents of the history, how it looks there.  A text of a fragment looks the same, and
   the fragment's identifiers and references are in order. *)
EXTENDS StyleRule, TraceBase
VARIABLES l, want, dead
Init == l = 1 /\ dead = TRUE /\ want = <<>>
Texts(T) == {i \in DOMAIN T : T[i].k = "text"}
Load(ds) == LET K == UNION {{<<k, i>> : i \in Texts(ds[k].nodes)} : k \in DOMAIN ds}
                F == {<<ds[x[1]].nodes[x[2]].tx, Look(ds[x[1]].styles, ds[x[1]].regions, ds[x[1]].nodes, x[2])>> : x \in K}
            IN [tx \in {f[1] : f \in F} |-> (CHOOSE f \in F : f[1] = tx)[2]]
Fragment(e) ==
    IF e.out # "ok" THEN {"outcome:" \o e.out}
    ELSE Bad("not_valid", e.valid) \cup Bad("unique", UniqueIds(e.styles, e.regions, e.nodes))
         \cup Bad("intact", Intact(e.styles, e.regions, e.nodes))
         \cup Bad("orphans", NoOrphans(e.styles, e.regions, e.nodes))
         \cup Bad("known_text", \A i \in Texts(e.nodes) : e.nodes[i].tx \in DOMAIN want)
         \cup Bad("style", \A i \in Texts(e.nodes) : e.nodes[i].tx \in DOMAIN want =>
                Look(e.styles, e.regions, e.nodes, i).st = want[e.nodes[i].tx].st)
         \cup Bad("region", \A i \in Texts(e.nodes) : e.nodes[i].tx \in DOMAIN want =>
                Look(e.styles, e.regions, e.nodes, i).rg = want[e.nodes[i].tx].rg)
         \cup Bad("lost", \A i \in DOMAIN e.must : \E j \in Texts(e.nodes) : e.nodes[j].tx = e.must[i])
Clauses(e) ==
    CASE e.ev \in {"doc", "seq"} -> Fragment(e)
      [] e.ev = "add" -> Bad("add:" \o e.out, e.out = "ok")
Step(e) ==
    IF e.ev = "reset" THEN dead' = FALSE /\ want' = TLCEval(Load(e.docs))
    ELSE IF dead THEN UNCHANGED <<dead, want>>
    ELSE LET bad == Clauses(e) IN Report(l, bad) /\ dead' = (bad # {}) /\ UNCHANGED want
Next == l <= Len_ /\ Step(Trace[l]) /\ Consumed(l) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, want, dead>>
=============================================================================
