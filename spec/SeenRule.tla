------------------------------ MODULE SeenRule ------------------------------
(* RULE level: which documents count as recent repeats.  Per sequence the last Window accepted numbers are remembered. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANT Window

NoSeen == [x \in {} |-> <<>>]
Numbers(seen, sid) == IF sid \in DOMAIN seen THEN seen[sid] ELSE <<>>
Repeat(seen, sid, n) == \E i \in DOMAIN Numbers(seen, sid) : Numbers(seen, sid)[i] = n
Tail_(s) == IF Len(s) > Window THEN SubSeq(s, Len(s) - Window + 1, Len(s)) ELSE s
Note(seen, sid, n) ==
    IF Repeat(seen, sid, n) THEN seen
    ELSE [x \in DOMAIN seen \cup {sid} |-> IF x = sid THEN Tail_(Append(Numbers(seen, sid), n)) ELSE seen[x]]
=============================================================================
