------------------------------- MODULE Timing -------------------------------
(* Design level: one walk over the tree that computes every interval with a syncbase and a stack of ends, as a reader
   of the document would do it.  The trees are grown first, then walked; at the end of the walk the intervals must be
   those of the rule. *)
EXTENDS TimeRule, Tree, TLC, Json
CONSTANTS MaxNodes, Times, Avails, MaxDepth    \* Times holds None_ for "not stated"
VARIABLES T, avail, phase, at, sync, ends, cb, ce
vars == <<T, avail, phase, at, sync, ends, cb, ce>>
Opt == Times \cup {None}
Unset == -2
Init == /\ T = <<>> /\ avail \in Avails /\ phase = "grow" /\ at = 0 /\ sync = 0 /\ ends = <<>>
        /\ cb = <<>> /\ ce = <<>>
Grow == /\ phase = "grow" /\ Len(T) < MaxNodes
        /\ \E p \in (IF T = <<>> THEN {0} ELSE Open(T)), b, e \in Opt :
             /\ Depth(T, p) < MaxDepth
             /\ \E k \in KindsIn(KindOf(T, p)) :
                \E d \in (IF k = "body" THEN Opt ELSE {None}) :
                    T' = Append(T, [k |-> k, par |-> p, b |-> b, e |-> e, d |-> d])
        /\ UNCHANGED <<avail, phase, at, sync, ends, cb, ce>>
Start == /\ phase = "grow" /\ T # <<>> /\ phase' = "down" /\ at' = 1
         /\ cb' = [i \in DOMAIN T |-> Unset] /\ ce' = [i \in DOMAIN T |-> Unset]
         /\ UNCHANGED <<T, avail, sync, ends>>
Top == IF ends = <<>> THEN Inf ELSE ends[Len(ends)]
Enter(i) ==
    LET n == T[i]
        own == IF n.d # None
               THEN Min2(n.d + (IF n.b # None THEN n.b ELSE avail), IF n.e # None THEN n.e ELSE Inf)
               ELSE IF n.e # None THEN sync + n.e ELSE Inf
        sb == sync + (IF n.b = None THEN 0 ELSE n.b)
    IN /\ ends' = IF n.e # None \/ n.d # None THEN Append(ends, Min2(own, Top)) ELSE ends
       /\ ce' = [ce EXCEPT ![i] = IF n.e # None \/ n.d # None THEN Min2(own, Top) ELSE Unset]
       /\ sync' = sb
       /\ cb' = [cb EXCEPT ![i] = Max2(sb, avail)]
       /\ LET ks == Kids(T, i) IN IF ks = {} THEN phase' = "up" /\ at' = i ELSE phase' = "down" /\ at' = MinOf(ks)
Leave(i) ==
    LET n == T[i]
        had == n.e # None \/ n.d # None
        rest == IF had THEN SubSeq(ends, 1, Len(ends) - 1) ELSE ends
        ks == {j \in Kids(T, i) : ~(T[j].b # None /\ T[j].e # None /\ T[j].e <= T[j].b)}
        e1 == IF ce[i] # Unset THEN ce[i]
              ELSE IF ks = {} THEN (IF rest = <<>> THEN Inf ELSE rest[Len(rest)])
              ELSE MaxOf({ce[j] : j \in ks})
        b1 == IF n.b # None \/ ks = {} THEN cb[i] ELSE Max2(cb[i], MinOf({cb[j] : j \in ks}))
        badbody == n.k = "body" /\ n.b # None /\ n.e # None /\ n.e <= n.b
        sibs == {j \in Kids(T, n.par) : j > i}
    IN /\ ends' = rest
       /\ sync' = sync - (IF n.b = None THEN 0 ELSE n.b)
       /\ ce' = [ce EXCEPT ![i] = IF badbody THEN Inf ELSE e1]
       /\ cb' = [cb EXCEPT ![i] = IF badbody THEN 0 ELSE b1]
       /\ IF n.par = 0 THEN phase' = "done" /\ at' = 0
          ELSE IF sibs = {} THEN phase' = "up" /\ at' = n.par
          ELSE phase' = "down" /\ at' = MinOf(sibs)
Walk == /\ \/ phase = "down" /\ Enter(at)
           \/ phase = "up" /\ Leave(at)
        /\ UNCHANGED <<T, avail>>
Next == Grow \/ Start \/ Walk
Spec == Init /\ [][Next]_vars

Agrees == phase = "done" => /\ \A i \in DOMAIN T : cb[i] = Begin(T, avail, i) /\ ce[i] = End(T, avail, i)
                            /\ sync = 0 /\ ends = <<>>
(* consequences a user relies on *)
Sane == phase = "done" =>
    \A i \in DOMAIN T :
        /\ (T[1].b = None \/ T[1].e = None \/ T[1].e > T[1].b) =>
               /\ Begin(T, avail, i) >= avail
               /\ T[i].par # 0 => End(T, avail, i) <= AboveEnd(T, avail, i)
        /\ T[i].par > 1 /\ Usable(T, i) /\ ~StatesEnd(T, T[i].par) => End(T, avail, i) <= End(T, avail, T[i].par)

GenNext == Grow
Emit == Len(T) = MaxNodes => PrintT(<<"BEH", ToJson([avail |-> avail, nodes |-> T])>>)
=============================================================================
