----------------------------- MODULE StyleRule -----------------------------
(* RULE level: what styles and regions mean for a piece of text.  A style is [id, st, at]: st the ids it refers to, at a
   function from attribute names to values; regions have the same form.  A node has st (ids of styles) and rg (id of a
   region, "" if none).  What is specified for an element is found by searching its references in order, each style
   before the styles it refers to in turn. *)
EXTENDS TimeRule, TLC, SequencesExt

HasId(S, x) == \E i \in DOMAIN S : S[i].id = x
ById(S, x) == S[CHOOSE i \in DOMAIN S : S[i].id = x]
Ids(S) == {S[i].id : i \in DOMAIN S}

(* styles in the order they are searched; a style that was met before adds nothing *)
RECURSIVE Order(_, _, _)
Order(S, refs, seen) ==
    IF refs = <<>> THEN seen
    ELSE LET x == Head(refs)
         IN IF (\E i \in DOMAIN seen : seen[i] = x) \/ ~HasId(S, x) THEN Order(S, Tail(refs), seen)
            ELSE Order(S, Tail(refs), Order(S, ById(S, x).st, Append(seen, x)))
Specified(S, refs, own) ==
    LET o == Order(S, refs, <<>>)
        ats == [i \in DOMAIN o |-> ById(S, o[i]).at]
        names == UNION {DOMAIN ats[i] : i \in DOMAIN ats} \cup DOMAIN own
    IN [a \in names |-> IF a \in DOMAIN own THEN own[a]
                        ELSE ats[CHOOSE i \in DOMAIN ats : a \in DOMAIN ats[i] /\ \A j \in 1..(i - 1) : a \notin DOMAIN ats[j]][a]]
NoAt == [x \in {} |-> 0]

RECURSIVE Path(_, _)
Path(T, i) == IF i = 0 THEN <<>> ELSE Append(Path(T, T[i].par), i)
(* what applies to a node: what is specified along its path, and the regions it is put into *)
Look(S, R, T, i) ==
    LET P == SelectSeq(Path(T, i), LAMBDA j : T[j].k \in TimedKinds)
        all == [j \in DOMAIN P |-> Specified(S, T[P[j]].st, NoAt)]
        Q == SelectSeq(P, LAMBDA j : T[j].k \in {"div", "p"} /\ T[j].rg # "")
    IN [st |-> SelectSeq(all, LAMBDA f : DOMAIN f # {}),
        rg |-> [j \in DOMAIN Q |-> IF HasId(R, T[Q[j]].rg)
                                   THEN LET r == ById(R, T[Q[j]].rg) IN <<r.at, Specified(S, r.st, NoAt)>>
                                   ELSE <<>>]]

(* identity *)
AllIds(S, R, T) == [i \in 1..(Len(S) + Len(R)) |-> IF i <= Len(S) THEN S[i].id ELSE R[i - Len(S)].id]
                   \o SelectSeq([i \in DOMAIN T |-> T[i].id], LAMBDA x : x # "")
UniqueIds(S, R, T) == LET A == AllIds(S, R, T) IN \A i, j \in DOMAIN A : i # j => A[i] # A[j]
RefsOf(X) == UNION {{X[i].st[j] : j \in DOMAIN X[i].st} : i \in DOMAIN X}
RegionRefs(T) == {T[i].rg : i \in DOMAIN T} \ {""}
Intact(S, R, T) == RefsOf(S) \cup RefsOf(R) \cup RefsOf(T) \subseteq Ids(S) /\ RegionRefs(T) \subseteq Ids(R)
(* everything in the head is referred to, styles possibly through other styles *)
NoOrphans(S, R, T) == /\ Ids(S) \subseteq ToSet(Order(S, SetToSeq(RefsOf(R) \cup RefsOf(T)), <<>>))
                      /\ Ids(R) \subseteq RegionRefs(T)
=============================================================================
