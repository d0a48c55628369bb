----------------------------- MODULE ReseqRule -----------------------------
(* RULE level: what a resequencing node puts out.  s = [start, len, done, D]: windows of length len follow each other
   from start, done of them are out, D the documents taken in so far. *)
EXTENDS PresentRule
WindowFrom(s) == s.start + s.done * s.len
WindowTo(s) == WindowFrom(s) + s.len
Wanted(s, t) == IF WindowFrom(s) <= t /\ t < WindowTo(s) THEN SeqShown(s.D, t) ELSE <<>>
(* a document with the number of a retained one is ignored *)
Overridden(D, d) == \E x \in D : x.n > d.n /\ x.b <= d.b
Take(D, d) == IF \E x \in D : x.n = d.n /\ ~Overridden(D, x) THEN D ELSE {x \in D : x.n # d.n} \cup {d}
=============================================================================
