------------------------------ MODULE P01Trace ------------------------------
EXTENDS TimelineRule, TraceBase

VARIABLES l, s, dead

Init == l = 1 /\ dead = TRUE /\ s = [sid |-> "", tb |-> "", cm |-> "", ag |-> "", docs |-> {}, last |-> 0]

DocClauses(st, o) ==
    LET d == CHOOSE x \in st.docs : x.u = o.u
        D == st.docs
        live == {x \in Held(D) : x.n = d.n}
    IN IF o.err # "" THEN {"activation_error:" \o o.err}
       ELSE Bad("get_document", IF d \in Held(D) THEN o.get = "same"
                                ELSE o.get = (IF live = {} THEN "none" ELSE "other"))
            \cup
            (IF Discarded(D, d) THEN Bad("discarded_activation", o.disc /\ o.re # INF /\ o.re <= o.rb)
             ELSE Bad("resolved_begin", o.rb = d.cb)
                  \cup (IF NeverActive(D, d)
                        THEN Bad("empty_activation", (o.re # INF /\ o.re <= o.rb) \/ (o.rb = 0 /\ o.re = INF))
                        ELSE Bad("resolved_end", o.re = ResolvedEnd(D, d)) \cup Bad("discarded_flag", ~o.disc)))

QueryClauses(st, q) ==
    IF q.err # "" THEN {"query_error:" \o q.err}
    ELSE IF q.e # INF /\ q.e <= q.b THEN {}
    ELSE LET D == st.docs
             Of(n) == CHOOSE x \in Held(D) : x.n = n
             known == \A i \in DOMAIN q.r : \E x \in Held(D) : x.n = q.r[i]
         IN IF ~known THEN {"query_returns_dropped_document"}
            ELSE LET active == SelectSeq(q.r, LAMBDA n : ~NeverActive(D, Of(n)))
                 IN Bad("active_documents", Range_(active) = {d.n : d \in InRange(D, q.b, q.e)})
                    \cup Bad("one_entry_each", Cardinality(Range_(q.r)) = Len(q.r))
                    \cup Bad("chronological", \A i, j \in DOMAIN active : i < j => Of(active[i]).cb < Of(active[j]).cb)
                    \cup (IF q.e = q.b + 1
                          THEN Bad("at_most_one", active = (IF ActiveAt(D, q.b) = NoDoc THEN <<>> ELSE <<ActiveAt(D, q.b)>>))
                          ELSE {})

AddClauses(e) ==
    LET st == Intake(s, e)
    IN Bad("intake:" \o IntakeOutcome(s, e) \o "/" \o e.out, e.out = IntakeOutcome(s, e))
       \cup Bad("last_number", e.last = st.last)
       \cup (IF e.out # IntakeOutcome(s, e) THEN {}
             ELSE UNION {DocClauses(st, e.docs[i]) : i \in DOMAIN e.docs}
                  \cup UNION {QueryClauses(st, e.q[i]) : i \in DOMAIN e.q}
                  \cup Bad("observed_all", Len(e.docs) = Cardinality(st.docs)))

CheckClauses(e) == Bad("compatible:" \o IntakeOutcome(s, e) \o "/" \o e.out, e.out = IntakeOutcome(s, e))

(* a consuming node: takes its parameters from the first document, locks on to its sequence, ignores a repeated
   number silently, and stamps documents without availability time with its clock *)
Opened(e) == IF s.sid # "" THEN s ELSE [s EXCEPT !.sid = e.sid, !.tb = e.tb, !.cm = e.cm, !.ag = e.ag]
ConsumeOutcome(e) ==
    LET st == Opened(e)
        o == IntakeOutcome(st, e)
    IN IF e.sid # st.sid THEN "unexpected" ELSE IF o = "collision" THEN "ok" ELSE o
ConsumeState(e) == Intake(Opened(e), e)
ConsumeClauses(e) ==
    LET st == ConsumeState(e)
        want == ConsumeOutcome(e)
    IN Bad("consume:" \o want \o "/" \o e.out, e.out = want)
       \cup (IF e.out # want THEN {}
             ELSE Bad("last_number", e.last = st.last)
                  \cup Bad("availability", want # "ok" \/ e.gotav = (IF e.av >= 0 THEN e.av ELSE e.clk))
                  \cup UNION {DocClauses(st, e.docs[i]) : i \in DOMAIN e.docs}
                  \cup UNION {QueryClauses(st, e.q[i]) : i \in DOMAIN e.q}
                  \cup Bad("observed_all", Len(e.docs) = Cardinality(st.docs)))

Step(e) ==
    IF e.ev = "reset"
    THEN /\ dead' = FALSE
         /\ s' = [sid |-> e.sid, tb |-> e.tb, cm |-> e.cm, ag |-> e.ag, docs |-> {}, last |-> 0]
    ELSE IF dead THEN UNCHANGED <<dead, s>>
    ELSE LET bad == CASE e.ev = "add" -> AddClauses(e)
                       [] e.ev = "check" -> CheckClauses(e)
                       [] e.ev = "consume" -> ConsumeClauses(e)
         IN /\ Report(l, bad)
            /\ dead' = (bad # {})
            /\ s' = IF e.ev = "add" THEN Intake(s, e)
                    ELSE IF e.ev = "consume" THEN ConsumeState(e)
                    ELSE IF e.out = "ok" /\ s.ag = "" THEN [s EXCEPT !.ag = e.ag] ELSE s

Next == l <= Len_ /\ Step(Trace[l]) /\ Consumed(l) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, s, dead>>
=============================================================================
