------------------------------- MODULE Relay -------------------------------
EXTENDS RelayRule, TLC, Json
CONSTANTS Sids, Numbers_, Steps
VARIABLES r, hist, sent
vars == <<r, hist, sent>>
Init == r \in {RInit("distribute", 0), RInit("buffer", 3)} /\ hist = <<>> /\ sent = <<>>
Offer(x) == /\ Len(hist) < Steps
            /\ hist' = Append(hist, x)
            /\ sent' = IF Passes(r, x) THEN Append(sent, Len(hist) + 1) ELSE sent
            /\ r' = RNext(r, x)
Next == \E x \in [sid : Sids, n : Numbers_] : Offer(x)
Spec == Init /\ [][Next]_vars

Sent(i) == \E k \in DOMAIN sent : sent[k] = i
InOrder == \A k \in 1..Len(sent) - 1 : sent[k] < sent[k + 1]
(* a document is dropped iff the same number passed with fewer than Window others of its sequence since *)
Exactly == r.kind = "distribute" =>
    \A i \in DOMAIN hist :
        Sent(i) <=> ~\E j \in 1..i - 1 :
            /\ Sent(j) /\ hist[j] = hist[i]
            /\ Cardinality({k \in j + 1..i - 1 : Sent(k) /\ hist[k].sid = hist[i].sid}) < Window
All == r.kind = "buffer" => Len(sent) = Len(hist)
(* what passes of one sequence does not depend on the others *)
Independent == r.kind = "distribute" =>
    \A s \in Sids :
        LET own == SelectSeq([i \in DOMAIN hist |-> i], LAMBDA i : hist[i].sid = s)
            Alone[k \in 0..Len(own)] == IF k = 0 THEN NoSeen ELSE Note(Alone[k - 1], s, hist[own[k]].n)
        IN \A k \in DOMAIN own : Sent(own[k]) <=> ~Repeat(Alone[k - 1], s, hist[own[k]].n)
Emit == Len(hist) = Steps => PrintT(<<"BEH", ToJson([kind |-> r.kind, steps |-> hist])>>)
=============================================================================
