------------------------------- MODULE Retime -------------------------------
(* Design level: how a document is moved later.  If something in it starts with the document itself, nothing on its path
   stating a begin, the body is given a begin; otherwise the outermost begins move, and every end above or at them,
   since those count from the same point. *)
EXTENDS RetimeRule, Tree, Json
CONSTANTS MaxNodes, Times, Delays, MaxDepth, Mixed, Mutant
VARIABLES T
Opt == Times \cup {None}
Node(k, p, b, e, d, tx) == [k |-> k, par |-> p, b |-> b, e |-> e, d |-> d, tx |-> tx]
Init == T = <<>>
HasSpan(T_, i) == \E j \in DOMAIN T_ : T_[j].par = i /\ T_[j].k = "span"
HasRun(T_, i) == \E j \in DOMAIN T_ : T_[j].par = i /\ IsRun(T_[j])
GrowTimed == /\ Len(T) < MaxNodes
             /\ \E p \in (IF T = <<>> THEN {0} ELSE Open(T)), b, e \in Opt :
                  /\ Depth(T, p) < MaxDepth
                  /\ \E k \in KindsIn(KindOf(T, p)) :
                     \E d \in (IF k = "body" THEN Opt ELSE {None}) :
                       /\ (k = "span" /\ ~Mixed) => ~HasRun(T, p)
                       /\ T' = Append(T, Node(k, p, b, e, d, ""))
GrowRun == /\ T # <<>> /\ Len(T) < MaxNodes
           /\ \E p \in Open(T) :
                /\ T[p].k \in {"p", "span"}
                /\ ~Mixed => ~HasSpan(T, p)
                /\ ~IsRun(T[Len(T)])
                /\ T' = Append(T, Node("text", p, None, None, None, "t" \o ToString(Len(T) + 1)))
Next == GrowTimed \/ GrowRun
Spec == Init /\ [][Next]_T

(* the algorithm *)
RECURSIVE BegunAbove(_, _)
BegunAbove(T_, i) == IF i = 0 THEN FALSE ELSE T_[i].b # None \/ BegunAbove(T_, T_[i].par)
Innermost(T_, i) == IF Mutant = "kind" THEN T_[i].k \in {"p", "span"} /\ ~HasSpan(T_, i)
                    ELSE {j \in TimedKids(T_, i) : Usable(T_, j)} = {}
StartsWithDocument(T_) == \E i \in DOMAIN T_ : Timed(T_, i) /\ Innermost(T_, i) /\ ~BegunAbove(T_, i)
Plus(x, y) == IF x = None THEN None ELSE x + y
MoveBody(T_, by) == IF T_[1].e = 0 /\ Mutant # "zero" THEN T_ ELSE [T_ EXCEPT ![1].b = by, ![1].e = Plus(@, by)]
MoveParts(T_, by) ==
    [i \in DOMAIN T_ |-> IF ~Timed(T_, i) \/ BegunAbove(T_, T_[i].par) THEN T_[i]
                         ELSE [T_[i] EXCEPT !.b = Plus(@, by), !.e = Plus(@, by),
                                            !.d = IF T_[i].b = None /\ Mutant # "dur" THEN Plus(@, by) ELSE @]]
Retimed(T_, by) == IF StartsWithDocument(T_) THEN MoveBody(T_, by) ELSE MoveParts(T_, by)

Shifts == T # <<>> => \A by \in Delays :
    LET N == Retimed(T, by) IN SameRuns(T, N, by) /\ SameSpan(T, N, by) /\ SameContent(T, N)
(* two delays in a row are one longer delay *)
Adds == T # <<>> => \A x, y \in Delays :
    Runs(Retimed(Retimed(T, x), y), 0) = Runs(Retimed(T, x + y), 0)
GenNext == Next
Emit == (Len(T) = MaxNodes /\ \E i \in DOMAIN T : T[i].k = "p") => PrintT(<<"BEH", ToJson([nodes |-> T])>>)
=============================================================================
