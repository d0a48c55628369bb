------------------------------ MODULE TimeRule ------------------------------
(* RULE level: when the elements of one document are active.
   A document is a sequence T of nodes in document order: [k, par, b, e, d], par the index of the containing element
   (0: none), b/e/d its begin, end and duration (None: not stated), k in body, div, p, span, br, text.  Times are
   milliseconds; Inf stands for "never ends". *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

None == -1
Inf == 2000000000
TimedKinds == {"body", "div", "p", "span"}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Min2(x, y) == IF x <= y THEN x ELSE y
Max2(x, y) == IF x >= y THEN x ELSE y

Timed(T, i) == T[i].k \in TimedKinds
Kids(T, i) == {j \in DOMAIN T : T[j].par = i}
TimedKids(T, i) == {j \in DOMAIN T : j > i /\ T[j].par = i /\ Timed(T, j)}
Bad_(T, i) == T[i].b # None /\ T[i].e # None /\ T[i].e <= T[i].b
Usable(T, i) == ~Bad_(T, i)
Dur(T, i) == IF T[i].k = "body" THEN T[i].d ELSE None

(* where the element's own time line starts: the begins on its path *)
RECURSIVE PathBegin(_, _)
PathBegin(T, i) == IF i = 0 THEN 0 ELSE PathBegin(T, T[i].par) + (IF T[i].b = None THEN 0 ELSE T[i].b)

(* the end the element states for itself, on the document's time line *)
StatesEnd(T, i) == T[i].e # None \/ Dur(T, i) # None
OwnEnd(T, avail, i) ==
    LET byEnd == IF T[i].e = None THEN Inf ELSE PathBegin(T, T[i].par) + T[i].e
        byDur == IF Dur(T, i) = None THEN Inf
                 ELSE Dur(T, i) + (IF T[i].b # None THEN T[i].b ELSE avail)
    IN Min2(byEnd, byDur)
(* the earliest end stated above the element *)
RECURSIVE AboveEnd(_, _, _)
AboveEnd(T, avail, i) ==
    IF T[i].par = 0 THEN Inf
    ELSE Min2(OwnEnd(T, avail, T[i].par), AboveEnd(T, avail, T[i].par))

RECURSIVE End(_, _, _)
End(T, avail, i) ==
    LET kids == {j \in TimedKids(T, i) : Usable(T, j)}
    IN IF T[i].k = "body" /\ Bad_(T, i) THEN Inf
       ELSE IF StatesEnd(T, i) THEN Min2(OwnEnd(T, avail, i), AboveEnd(T, avail, i))
       ELSE IF kids = {} THEN AboveEnd(T, avail, i)
       ELSE MaxOf({End(T, avail, j) : j \in kids})

RECURSIVE Begin(_, _, _)
Begin(T, avail, i) ==
    LET kids == {j \in TimedKids(T, i) : Usable(T, j)}
        own == Max2(PathBegin(T, i), avail)
    IN IF T[i].k = "body" /\ Bad_(T, i) THEN 0
       ELSE IF T[i].b # None \/ kids = {} THEN own
       ELSE Max2(own, MinOf({Begin(T, avail, j) : j \in kids}))

Body(T) == LET B == {i \in DOMAIN T : T[i].k = "body"} IN IF B = {} THEN 0 ELSE CHOOSE i \in B : TRUE
DocBegin(T, avail) == IF Body(T) = 0 THEN avail ELSE Begin(T, avail, Body(T))
DocEnd(T, avail) == IF Body(T) = 0 THEN avail ELSE End(T, avail, Body(T))

(* active somewhere in [from, to) *)
ActiveIn(T, avail, i, from, to) ==
    Begin(T, avail, i) < End(T, avail, i) /\ Begin(T, avail, i) < to /\ from < End(T, avail, i)
=============================================================================
