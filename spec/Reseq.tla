------------------------------- MODULE Reseq -------------------------------
(* Design level: a resequencing node that forgets the documents before the last one a window has met.  Documents are
   [n, b, e]; each presents its own number while it is active.  recv: all documents taken in, in order (rule level); kept:
   the retained ones.  A number that is no longer retained may be taken in again. *)
EXTENDS ReseqRule, Json
CONSTANTS MaxN, MaxT, Lens, MaxDocs, MaxWin, Discards
VARIABLES recv, kept, done, len, disc, hist
vars == <<recv, kept, done, len, disc, hist>>
Doc(n, b, e) == [n |-> n, b |-> b, e |-> e, runs |-> <<[tx |-> ToString(n), b |-> b, e |-> e, i |-> 1]>>]
NewDocs == {Doc(n, b, e) : n \in 1..MaxN, b \in 0..MaxT, e \in (1..MaxT) \cup {Inf}}
S_(D) == [start |-> 0, len |-> len, done |-> done, D |-> D]
Init == recv = <<>> /\ kept = {} /\ done = 0 /\ len \in Lens /\ disc \in Discards /\ hist = <<>>
Higher(D, d) == {x \in D : x.n > d.n}
\* how long a retained document is active
ActiveEnd(D, d) == MinOf({d.e} \cup {x.b : x \in Higher(D, d)})
Live(D, d) == d.b < ActiveEnd(D, d) 
Met(D) == {d \in D : Live(D, d) /\ d.b < WindowTo(S_(D)) /\ ActiveEnd(D, d) > WindowFrom(S_(D))}
Forget(D) == IF ~disc \/ Met(D) = {} THEN D
             ELSE LET last == CHOOSE d \in Met(D) : \A x \in Met(D) : x.b <= d.b
                  IN {d \in D : d = last \/ d.b > last.b}
Arrive == /\ Len(recv) < MaxDocs
          /\ \E d \in NewDocs :
               /\ d.b < d.e
               /\ hist' = Append(hist, [ev |-> "doc", n |-> d.n, b |-> d.b, e |-> IF d.e = Inf THEN None ELSE d.e])
               /\ IF \E x \in kept : x.n = d.n THEN recv' = recv /\ kept' = kept
                  ELSE recv' = Append(recv, d) /\ kept' = {x \in kept : ~(x.n < d.n /\ d.b <= x.b)} \cup
                         (IF \E x \in kept : x.n > d.n /\ x.b <= d.b THEN {} ELSE {d})
          /\ UNCHANGED <<done, len, disc>>
Cut == /\ recv # <<>> /\ done < MaxWin
       /\ done' = done + 1 /\ kept' = Forget(kept) /\ hist' = Append(hist, [ev |-> "cut"])
       /\ UNCHANGED <<recv, len, disc>>
Next == Arrive \/ Cut
Spec == Init /\ [][Next]_vars
View == <<recv, kept, done, len, disc>>
\* documents of the same number: the rule knows them by arrival, only the latest matters
Uniq(q) == {q[i] : i \in {j \in DOMAIN q : \A k \in DOMAIN q : k > j => q[k].n # q[j].n}}
NoChange == \A t \in WindowFrom(S_(kept))..(MaxT + 1) : SeqShown(kept, t) = SeqShown(Uniq(recv), t)
GenNext == Len(hist) < 12 /\ Next
Emit == (Len(hist) = 12 \/ (Len(recv) = MaxDocs /\ done = MaxWin)) => PrintT(<<"BEH", ToJson([len |-> len, disc |-> disc, steps |-> hist])>>)
=============================================================================
