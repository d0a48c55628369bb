------------------------------- MODULE Segment -------------------------------
(* Design level: how a document is cut to a time range, and how the cuts of two documents are joined.  An element is
   kept if its computed interval meets the range; containers lose their timing; each innermost timed element states
   its computed interval clipped to the range; a run next to timed siblings gets a timed element of its own. *)
EXTENDS PresentRule, Tree, Json
CONSTANTS MaxNodes, Times, Avails, MaxDepth, Windows, Mixed
VARIABLES T, avail
vars == <<T, avail>>
Opt == Times \cup {None}
Node(k, p, b, e, tx) == [k |-> k, par |-> p, b |-> b, e |-> e, d |-> None, tx |-> tx]
Init == T = <<>> /\ avail \in Avails
HasSpan(T_, i) == \E j \in DOMAIN T_ : T_[j].par = i /\ T_[j].k = "span"
HasRun(T_, i) == \E j \in DOMAIN T_ : T_[j].par = i /\ IsRun(T_[j])
GrowTimed == /\ Len(T) < MaxNodes
             /\ \E p \in (IF T = <<>> THEN {0} ELSE Open(T)), b, e \in Opt :
                  /\ Depth(T, p) < MaxDepth
                  /\ \E k \in KindsIn(KindOf(T, p)) :
                       /\ (k = "span" /\ ~Mixed) => ~HasRun(T, p)
                       /\ T' = Append(T, Node(k, p, b, e, ""))
GrowRun == /\ T # <<>> /\ Len(T) < MaxNodes
           /\ \E p \in Open(T) :
                /\ T[p].k \in {"p", "span"}
                /\ ~Mixed => ~HasSpan(T, p)
                /\ ~IsRun(T[Len(T)]) 
                /\ T' = Append(T, Node("text", p, None, None, "t" \o ToString(Len(T) + 1)))
Next == (GrowTimed \/ GrowRun) /\ avail' = avail
Spec == Init /\ [][Next]_vars

(* the algorithm *)
Leaf(T_, i) == ~\E j \in DOMAIN T_ : T_[j].par = i /\ Timed(T_, j)
Meets(T_, av, i, f, t) == ~(f # None /\ End(T_, av, i) <= f) /\ ~(t # None /\ Begin(T_, av, i) >= t)
Clip(T_, av, i, f, t) ==
    LET b == IF f = None THEN Begin(T_, av, i) ELSE Max2(f, Begin(T_, av, i))
        e == IF t = None THEN End(T_, av, i) ELSE Min2(t, End(T_, av, i))
    IN [b |-> b, e |-> IF e = Inf THEN None ELSE e]
RECURSIVE CutFrom(_, _, _, _, _, _)
(* acc: [N: nodes written, at: where each old node went, 0 if it was dropped] *)
CutFrom(T_, av, f, t, i, acc) ==
    IF i > Len(T_) THEN acc.N
    ELSE LET n == T_[i]
             p == IF n.par = 0 THEN 0 ELSE acc.at[n.par]
             gone == n.par # 0 /\ p = 0
             me == Len(acc.N) + 1
             c == IF Timed(T_, i) THEN Clip(T_, av, i, f, t) ELSE Clip(T_, av, n.par, f, t)
             keep == IF IsRun(n) THEN ~gone ELSE ~gone /\ (n.par = 0 \/ Meets(T_, av, i, f, t))
             wrap == IsRun(n) /\ HasSpan(T_, n.par)
             new == IF ~keep THEN <<>>
                    ELSE IF wrap THEN <<Node("span", p, c.b, c.e, ""), [n EXCEPT !.par = me]>>
                    ELSE IF IsRun(n) THEN <<[n EXCEPT !.par = p]>>
                    ELSE IF Leaf(T_, i) THEN <<Node(n.k, p, c.b, c.e, "")>>
                    ELSE <<Node(n.k, p, None, None, "")>>
         IN CutFrom(T_, av, f, t, i + 1, [N |-> acc.N \o new, at |-> Append(acc.at, IF keep THEN me ELSE 0)])
Cut(T_, av, f, t) == CutFrom(T_, av, f, t, 1, [N |-> <<>>, at |-> <<>>])

SameIn(R, F, f, t) == \A x \in Instants(R) \cup Instants(F) \cup ({f, t} \ {None}) :
                        Shown(F, x) = IF InRange(x, f, t) THEN Shown(R, x) ELSE <<>>
Faithful == T # <<>> =>
    \A f \in Windows \cup {None}, t \in Windows \cup {None} :
        (f = None \/ t = None \/ f < t) => SameIn(Runs(T, avail), Runs(Cut(T, avail, f, t), 0), f, t)
(* cutting twice is cutting once *)
Twice == T # <<>> =>
    \A f, m, t \in Windows : f < m /\ m < t =>
        LET once == Runs(Cut(T, avail, f, m), 0)
            twice == Runs(Cut(Cut(T, avail, f, t), 0, None, m), 0)
        IN \A x \in Instants(once) \cup Instants(twice) : Shown(once, x) = Shown(twice, x)
Emit == (Len(T) = MaxNodes /\ \E i \in DOMAIN T : IsRun(T[i])) => PrintT(<<"BEH", ToJson([avail |-> avail, nodes |-> T])>>)
=============================================================================
