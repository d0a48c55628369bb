---------------------------- MODULE PresentRule ----------------------------
(* RULE level: what a document, and a sequence of documents, presents at a moment.  A text or line break is presented
   while the element it stands in is active. *)
EXTENDS TimeRule, TLC

IsRun(n) == n.k \in {"text", "br"}
Token(n) == IF n.k = "br" THEN "<br>" ELSE n.tx

(* the runs of a document with the interval each is presented in, in document order *)
Runs(T, avail) ==
    LET idx == {i \in DOMAIN T : IsRun(T[i])}
        iv == [i \in {T[j].par : j \in idx} |-> <<Begin(T, avail, i), End(T, avail, i)>>]
        F[i \in 0..Len(T)] == IF i = 0 THEN <<>>
                              ELSE IF i \in idx /\ iv[T[i].par][1] < iv[T[i].par][2]
                                   THEN Append(F[i - 1], [tx |-> Token(T[i]), b |-> iv[T[i].par][1], e |-> iv[T[i].par][2], i |-> i])
                                   ELSE F[i - 1]
    IN F[Len(T)]
Shown(R, t) == LET S == SelectSeq(R, LAMBDA r : r.b <= t /\ t < r.e)
               IN [j \in DOMAIN S |-> S[j].tx]
Instants(R) == {0} \cup {R[j].b : j \in DOMAIN R} \cup ({R[j].e : j \in DOMAIN R} \ {Inf})

(* documents of a sequence: set of [n, b, e, runs]; at any moment at most the highest-numbered begun one is presented *)
Active(D, t) == LET begun == {d \in D : d.b <= t}
                IN IF begun = {} THEN {} ELSE LET d == CHOOSE x \in begun : \A y \in begun : y.n <= x.n
                                              IN IF t < d.e THEN {d} ELSE {}
SeqShown(D, t) == IF Active(D, t) = {} THEN <<>> ELSE Shown((CHOOSE d \in Active(D, t) : TRUE).runs, t)
SeqInstants(D) == {0} \cup UNION {Instants(d.runs) \cup {d.b} \cup ({d.e} \ {Inf}) : d \in D}

InRange(t, from, to) == (from = None \/ from <= t) /\ (to = None \/ t < to)
=============================================================================
