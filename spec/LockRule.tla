------------------------------ MODULE LockRule ------------------------------
(* RULE level: nodes that serve one sequence.  kind: consume, resequence, retime, dedup, encode.
   Documents here never override each other, so what a consumer holds is the set of numbers it took in. *)
EXTENDS SeenRule

LInit(kind, own, lock, held) == [kind |-> kind, own |-> own, lock |-> lock, seen |-> NoSeen, held |-> held]
RefusesOwn(s) == s.kind \in {"retime", "dedup"}
DropsRepeats(s) == s.kind \in {"retime", "dedup"}
Holds(s) == s.kind \in {"consume", "resequence"}
Refused(s, d) == (RefusesOwn(s) /\ d.sid = s.own) \/ (s.lock # "" /\ s.lock # d.sid)
Emissions(s, d) == IF Refused(s, d) \/ Holds(s) \/ (DropsRepeats(s) /\ Repeat(s.seen, d.sid, d.n)) THEN 0 ELSE 1
LNext(s, d) ==
    IF Refused(s, d) THEN s
    ELSE [s EXCEPT !.lock = d.sid,
                   !.seen = IF DropsRepeats(s) THEN Note(s.seen, d.sid, d.n) ELSE s.seen,
                   !.held = IF Holds(s) THEN s.held \cup {d.n} ELSE s.held]
=============================================================================
