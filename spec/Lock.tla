-------------------------------- MODULE Lock --------------------------------
EXTENDS LockRule, TLC, Json
CONSTANTS Sids, Numbers_, Kinds, Steps
VARIABLES s, hist, res      \* res[i]: "refused", "emitted", "silent"
vars == <<s, hist, res>>
Init == (\E k \in Kinds : s = LInit(k, "OUT", "", {})) /\ hist = <<>> /\ res = <<>>
Offer(x) == /\ Len(hist) < Steps
            /\ hist' = Append(hist, x)
            /\ res' = Append(res, IF Refused(s, x) THEN "refused" ELSE IF Emissions(s, x) = 1 THEN "emitted" ELSE "silent")
            /\ s' = LNext(s, x)
Next == \E x \in [sid : Sids, n : Numbers_] : Offer(x)
Spec == Init /\ [][Next]_vars

Taken == {i \in DOMAIN hist : res[i] # "refused"}
First == IF Taken = {} THEN 0 ELSE CHOOSE i \in Taken : \A j \in Taken : i <= j
OneSequence == \A i, j \in Taken : hist[i].sid = hist[j].sid
RefusedOnlyIfForeign == \A i \in DOMAIN hist \ Taken :
    (RefusesOwn(s) /\ hist[i].sid = s.own) \/ (First # 0 /\ First < i /\ hist[i].sid # hist[First].sid)
(* refused documents have no effect: without them everything else comes out the same *)
NoEffect ==
    LET own == SelectSeq([i \in DOMAIN hist |-> i], LAMBDA i : i \in Taken)
        Alone[k \in 0..Len(own)] == IF k = 0 THEN LInit(s.kind, "OUT", "", {}) ELSE LNext(Alone[k - 1], hist[own[k]])
    IN /\ Alone[Len(own)] = s
       /\ \A k \in DOMAIN own : (res[own[k]] = "emitted") <=> Emissions(Alone[k - 1], hist[own[k]]) = 1
Emit == Len(hist) = Steps => PrintT(<<"BEH", ToJson([kind |-> s.kind, steps |-> hist])>>)
=============================================================================
