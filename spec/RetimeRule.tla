----------------------------- MODULE RetimeRule -----------------------------
(* RULE level: a document moved later by a delay.  T is the document as received, N as emitted; times are those the
   documents state themselves, that is, at availability 0. *)
EXTENDS PresentRule

Move(x, delay) == IF x = Inf THEN Inf ELSE x + delay
Moved(R, delay) == [j \in DOMAIN R |-> [R[j] EXCEPT !.b = Move(@, delay), !.e = Move(@, delay)]]
SameRuns(T, N, delay) == Runs(N, 0) = Moved(Runs(T, 0), delay)
(* the times the document as a whole takes up; a contradictory body starts at zero whatever it states *)
Never(T) == DocBegin(T, 0) >= DocEnd(T, 0)
SameSpan(T, N, delay) ==
    IF Body(T) = 0 \/ Bad_(T, Body(T)) THEN TRUE
    ELSE IF Never(T) THEN Never(N)
    ELSE DocBegin(N, 0) = DocBegin(T, 0) + delay /\ DocEnd(N, 0) = Move(DocEnd(T, 0), delay)
(* nothing but begin, end and duration differs *)
Untimed(T) == [i \in DOMAIN T |-> [T[i] EXCEPT !.b = None, !.e = None, !.d = None]]
SameContent(T, N) == Untimed(T) = Untimed(N)
=============================================================================
