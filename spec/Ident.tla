------------------------------- MODULE Ident -------------------------------
(* Design level: how the heads and bodies of the cuts of two documents that use the same names are joined.  Every
   identifier is prefixed with its document's number, references likewise; what is not referred to is dropped; a body's
   own styles are carried by a division around its content. *)
EXTENDS StyleRule, Json
CONSTANTS Names, Vals
VARIABLES docs
\* references between the styles, without a cycle: a style refers to names after it in a permutation
Doc(S, R, T) == [S |-> S, R |-> R, T |-> T]
At(k, n, v) == IF v = 0 THEN NoAt ELSE [x \in {"color"} |-> n \o ToString(k)]
RefLists == {<<>>} \cup {<<x>> : x \in Names} \cup {<<p[1], p[2]>> : p \in {q \in Names \X Names : q[1] # q[2]}}
Node(k, p, st, rg, tx, id) == [k |-> k, par |-> p, b |-> None, e |-> None, d |-> None, tx |-> tx, st |-> st, rg |-> rg, id |-> id]
NameSeq == SetToSeq(Names)
Styles(k, vals, refs) == [i \in DOMAIN NameSeq |-> [id |-> NameSeq[i], st |-> refs[NameSeq[i]], at |-> At(k, NameSeq[i], vals[NameSeq[i]])]]
Acyclic(refs) == LET RECURSIVE Reach(_, _)
                     Reach(X, n) == IF n = 0 THEN X ELSE Reach(X \cup UNION {ToSet(refs[x]) : x \in X}, n - 1)
                 IN \A x \in Names : x \notin Reach(ToSet(refs[x]), Cardinality(Names))
Links == {r \in [Names -> {<<>>} \cup {<<x>> : x \in Names}] : Acyclic(r)}
DocsOf(k) == {Doc(Styles(k, v, r), <<[id |-> "r", st |-> rs, at |-> [x \in {"origin"} |-> k]]>>,
                  <<Node("body", 0, bs, "", "", ""), Node("div", 1, <<>>, rg, "", ""), Node("p", 2, ps, "", "", "n"),
                    Node("text", 3, <<>>, "", "t" \o ToString(k), "")>>) :
              v \in [Names -> Vals], r \in Links, bs \in RefLists, ps \in RefLists, rg \in {"", "r"}, rs \in {<<>>} \cup {<<x>> : x \in Names}}

(* the algorithm *)
Pre(k, x) == IF x = "" THEN "" ELSE "SEQ" \o ToString(k) \o "." \o x
PreAll(k, s) == [i \in DOMAIN s |-> Pre(k, s[i])]
Rename(d, k) == Doc([i \in DOMAIN d.S |-> [d.S[i] EXCEPT !.id = Pre(k, @), !.st = PreAll(k, @)]],
                    [i \in DOMAIN d.R |-> [d.R[i] EXCEPT !.id = Pre(k, @), !.st = PreAll(k, @)]],
                    [i \in DOMAIN d.T |-> [d.T[i] EXCEPT !.id = Pre(k, @), !.st = PreAll(k, @), !.rg = Pre(k, @)]])
Prune(d) == LET rs == RegionRefs(d.T)
                R == SelectSeq(d.R, LAMBDA r : r.id \in rs)
                ss == ToSet(Order(d.S, SetToSeq(RefsOf(R) \cup RefsOf(d.T)), <<>>))
            IN Doc(SelectSeq(d.S, LAMBDA s : s.id \in ss), R, d.T)
Shift(n, by, top) == [n EXCEPT !.par = IF @ <= 1 THEN top ELSE @ + by]
Content(T, at) == \* the content of a body, to be put at position at under the new body
    LET rest == SubSeq(T, 2, Len(T))
    IN IF T[1].st = <<>> THEN [i \in DOMAIN rest |-> Shift(rest[i], at - 2, 1)]
       ELSE <<Node("div", 1, T[1].st, "", "", "")>> \o [i \in DOMAIN rest |-> Shift(rest[i], at - 1, at)]
Join(d1, d2) == LET c1 == Content(d1.T, 2) IN
    Doc(d1.S \o d2.S, d1.R \o d2.R, <<Node("body", 0, <<>>, "", "", "")>> \o c1 \o Content(d2.T, 2 + Len(c1)))
Whole(ds) == Join(Prune(Rename(ds[1], 1)), Prune(Rename(ds[2], 2)))

Init == docs \in {<<d>> : d \in DocsOf(1)}
Next == /\ Len(docs) = 1 /\ \E d \in DocsOf(2) : docs' = Append(docs, d)
Spec == Init /\ [][Next]_docs
Text(d, tx) == CHOOSE i \in DOMAIN d.T : d.T[i].tx = tx
Faithful == Len(docs) = 2 =>
    LET w == Whole(docs) IN
    /\ UniqueIds(w.S, w.R, w.T) /\ Intact(w.S, w.R, w.T) /\ NoOrphans(w.S, w.R, w.T)
    /\ \A k \in 1..2 : LET tx == "t" \o ToString(k) IN
          Look(w.S, w.R, w.T, Text(w, tx)) = Look(docs[k].S, docs[k].R, docs[k].T, Text(docs[k], tx))
GenInit == docs = <<>>
GenNext == docs = <<>> /\ docs' = <<RandomElement(DocsOf(1)), RandomElement(DocsOf(2))>>
Emit == Len(docs) = 2 => PrintT(<<"BEH", ToJson([docs |-> docs])>>)
=============================================================================
