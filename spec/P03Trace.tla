------------------------------ MODULE P03Trace ------------------------------
EXTENDS HandoverRule, TraceBase

VARIABLES l, h, dead

Init == l = 1 /\ dead = TRUE /\ h = HInit("")

(* one emission: what came out for the document d *)
SentClauses(st, d, m) ==
    Bad("output_identifier", m.sid = st.oid)
    \cup Bad("renumbered", m.n = st.out + 1)
    \cup Bad("selected_sequence", m.sel = d.sid)
    \cup Bad("token_kept", m.tok = d.tok)
    \cup Bad("group_kept", m.ag = d.ag)
    \cup Bad("unchanged", m.same)

DocClauses(e) ==
    LET want == IF Emits(h, e) THEN 1 ELSE 0
        adm == Admit(h, e)
    IN Bad("outcome:" \o adm \o "/" \o e.out, e.out = adm)
       \cup (IF Len(e.em) # want
             THEN {IF want = 1 THEN "not_emitted" ELSE "emitted_without_control"}
             ELSE IF want = 1 THEN SentClauses(h, e, e.em[1]) ELSE {})

MsgClauses(e) ==
    Bad("message_outcome", e.out = "ok")
    \cup Bad("message_passed_once", Len(e.em) = 1)
    \cup (IF Len(e.em) = 1 THEN Bad("message_identifier", e.em[1].sid = h.oid) \cup Bad("message_unchanged", e.em[1].same)
          ELSE {})

Step(e) ==
    IF e.ev = "reset"
    THEN /\ dead' = FALSE
         /\ h' = HInit(e.g) @@ [oid |-> e.oid]
    ELSE IF dead THEN UNCHANGED <<dead, h>>
    ELSE LET bad == IF e.ev = "doc" THEN DocClauses(e) ELSE MsgClauses(e)
         IN /\ Report(l, bad)
            /\ dead' = (bad # {})
            /\ h' = IF e.ev = "doc" THEN HNext(h, e) ELSE h

Next == l <= Len_ /\ Step(Trace[l]) /\ Consumed(l) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, h, dead>>
=============================================================================
