----------------------------- MODULE RelayRule -----------------------------
(* RULE level: relaying nodes.  kind "distribute" drops recent repeats, kind "buffer" passes everything on. *)
EXTENDS SeenRule

RInit(kind, delay) == [kind |-> kind, delay |-> delay, seen |-> NoSeen]
Passes(r, d) == r.kind = "buffer" \/ ~Repeat(r.seen, d.sid, d.n)
RNext(r, d) == IF r.kind = "distribute" THEN [r EXCEPT !.seen = Note(r.seen, d.sid, d.n)] ELSE r
=============================================================================
