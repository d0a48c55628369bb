---------------------------- MODULE HandoverRule ----------------------------
(* RULE level: the handover node.  A document is [sid, n, ag, tok, tb, cm]; ag = "" and tok = -1 when absent.
   State: ctl (sequence in control), tok (its token, -1 before the first), out (last output number),
   seen (repeats, SeenRule), par (what is known of each input sequence: time parameters and authors group). *)
EXTENDS SeenRule

HInit(group) == [g |-> group, ctl |-> "", tok |-> -1, out |-> 0, seen |-> NoSeen, par |-> [x \in {} |-> <<>>]]

Known(h, d) == d.sid \in DOMAIN h.par
ParOf(h, d) == IF Known(h, d) THEN h.par[d.sid] ELSE [tb |-> d.tb, cm |-> d.cm, ag |-> d.ag]
Admit(h, d) ==
    LET p == ParOf(h, d)
    IN IF p.tb # d.tb THEN "incompatible"
       ELSE IF p.tb = "clock" /\ p.cm # d.cm THEN "incompatible"
       ELSE IF d.ag # "" /\ p.ag # "" /\ d.ag # p.ag THEN "group"
       ELSE "ok"

Candidate(h, d) == ~Repeat(h.seen, d.sid, d.n) /\ d.ag = h.g /\ d.tok >= 0
TakesControl(h, d) == Candidate(h, d) /\ d.tok > h.tok
Continues(h, d) == Candidate(h, d) /\ h.ctl = d.sid
Emits(h, d) == Admit(h, d) = "ok" /\ (TakesControl(h, d) \/ Continues(h, d))

HNext(h, d) ==
    IF Admit(h, d) # "ok" THEN h
    ELSE LET p == ParOf(h, d)
             np == [p EXCEPT !.ag = IF p.ag = "" THEN d.ag ELSE p.ag]
             h1 == [h EXCEPT !.seen = Note(h.seen, d.sid, d.n),
                             !.par = [x \in DOMAIN h.par \cup {d.sid} |-> IF x = d.sid THEN np ELSE h.par[x]]]
         IN IF Emits(h, d) THEN [h1 EXCEPT !.ctl = d.sid, !.tok = d.tok, !.out = h.out + 1] ELSE h1
=============================================================================
