------------------------------ MODULE P05Trace ------------------------------
EXTENDS TimeRule, TraceBase
VARIABLES l, T, avail, dead
Init == l = 1 /\ dead = TRUE /\ T = <<>> /\ avail = 0
V2(x) == IF x = None THEN Inf ELSE x
(* zero-length or never active elements may or may not be listed *)
ActiveNear(T_, av, i, from, to) == Begin(T_, av, i) < End(T_, av, i)
V(x) == IF x = Inf THEN None ELSE x
(* obs: the computed times of every timed element, of the document, and what is listed for time ranges *)
Clauses(T_, av, e) ==
    IF e.out # "ok" THEN {"outcome:" \o e.out}
    ELSE LET tm == {i \in DOMAIN T_ : Timed(T_, i)}
             leaf == {i \in DOMAIN T_ : T_[i].k \in {"p", "span"}}
         IN UNION {Bad("begin:" \o T_[i].k, e.cb[i] = V(Begin(T_, av, i)))
                   \cup Bad("end:" \o T_[i].k, e.ce[i] = V(End(T_, av, i))) : i \in tm}
            \cup Bad("document_begin", e.db = DocBegin(T_, av))
            \cup Bad("document_end", e.de = V(DocEnd(T_, av)))
            \cup UNION {LET want == {i \in leaf : ActiveIn(T_, av, i, q.from, V2(q.to))}
                            got == {q.got[x] : x \in DOMAIN q.got}
                        IN Bad("range_missing", want \subseteq got)
                           \cup Bad("range_extra", \A i \in got \ want : ~ActiveNear(T_, av, i, q.from, V2(q.to)))
                           \cup Bad("range_twice", Cardinality(got) = Len(q.got))
                           \cup Bad("range_order", \A x, y \in DOMAIN q.got :
                                       (x < y /\ q.got[x] \in want /\ q.got[y] \in want)
                                          => Begin(T_, av, q.got[x]) <= Begin(T_, av, q.got[y]))
                          : q \in Range_(e.ranges)}
Apply(e) == [T EXCEPT ![Body(T)] = [@ EXCEPT !.b = e.b, !.e = e.e, !.d = e.d]]
Step(e) ==
    IF e.ev = "reset" THEN dead' = FALSE /\ T' = e.nodes /\ avail' = e.avail
    ELSE IF dead THEN UNCHANGED <<dead, T, avail>>
    ELSE LET T2 == IF e.ev = "edit" THEN Apply(e) ELSE T
             a2 == IF e.ev = "avail" THEN e.avail ELSE avail
             bad == Clauses(T2, a2, e)
         IN Report(l, bad) /\ dead' = (bad # {}) /\ T' = T2 /\ avail' = a2
Next == l <= Len_ /\ Step(Trace[l]) /\ Consumed(l) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, T, avail, dead>>
=============================================================================
