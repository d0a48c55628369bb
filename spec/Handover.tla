------------------------------ MODULE Handover ------------------------------
(* Histories of a handover node, and what must hold of every history, stated without the node's state. *)
EXTENDS HandoverRule, TLC, Json

CONSTANTS Sids, Numbers_, Groups, Tokens, Params, Steps     \* token 0 stands for none

VARIABLES h, hist, sent     \* hist: documents offered; sent: positions in hist of the emitted ones

vars == <<h, hist, sent>>
Docs == [sid : Sids, n : Numbers_, ag : Groups, tok : Tokens, par : Params]
D(x) == [sid |-> x.sid, n |-> x.n, ag |-> x.ag, tok |-> IF x.tok = 0 THEN -1 ELSE x.tok, tb |-> IF x.par = "media" THEN "media" ELSE "clock", cm |-> IF x.par = "media" THEN "" ELSE x.par]

Init == h = HInit("g") /\ hist = <<>> /\ sent = <<>>
Offer(x) == /\ Len(hist) < Steps
            /\ hist' = Append(hist, x)
            /\ h' = HNext(h, D(x))
            /\ sent' = IF Emits(h, D(x)) THEN Append(sent, Len(hist) + 1) ELSE sent
Next == \E x \in Docs : Offer(x)
Spec == Init /\ [][Next]_vars

At(k) == hist[sent[k]]
LastBefore(i) == {k \in DOMAIN sent : sent[k] < i}
Prev(i) == IF LastBefore(i) = {} THEN 0 ELSE CHOOSE k \in LastBefore(i) : \A m \in LastBefore(i) : m <= k
Accepted(i) ==      \* the input sequence never contradicted its time parameters or authors group up to i
    LET js == {j \in 1..i - 1 : hist[j].sid = hist[i].sid}
        Ok[j \in 1..i] == \A k \in {k \in 1..j - 1 : hist[k].sid = hist[i].sid} :
                            Ok[k] => /\ hist[k].par = hist[j].par
                                     /\ (hist[k].ag = "" \/ hist[j].ag = "" \/ hist[k].ag = hist[j].ag)
    IN Ok[i]
Fresh(i) == \A j \in 1..i - 1 : Accepted(j) => ~(hist[j].sid = hist[i].sid /\ hist[j].n = hist[i].n)

Consecutive == h.out = Len(sent)
InOrder == \A k \in 1..Len(sent) - 1 : sent[k] < sent[k + 1]
Exactly ==
    \A i \in DOMAIN hist :
        LET p == Prev(i)
            control == p = 0 \/ hist[i].tok > At(p).tok \/ hist[i].sid = At(p).sid
            should == Accepted(i) /\ Fresh(i) /\ hist[i].ag = "g" /\ hist[i].tok > 0 /\ control
        IN (\E k \in DOMAIN sent : sent[k] = i) <=> should
TokenIsLast == IF sent = <<>> THEN h.tok = -1 /\ h.ctl = ""
               ELSE h.tok = At(Len(sent)).tok /\ h.ctl = At(Len(sent)).sid
OnlyHolderLowers ==
    \A k \in 1..Len(sent) - 1 : At(k + 1).tok <= At(k).tok => At(k + 1).sid = At(k).sid

Emit == Len(hist) = Steps => PrintT(<<"BEH", ToJson([steps |-> hist])>>)
=============================================================================
