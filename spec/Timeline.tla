------------------------------ MODULE Timeline ------------------------------
(* ALGORITHM level, shaped like the implementation: a sorted list of begin and end events on which an arriving
   document is inserted, trimmed or discarded, or from which it removes the documents it overrides.
   AlgorithmFollowsRule and its companions say that it agrees with TimelineRule in every reachable state. *)
EXTENDS TimelineRule

CONSTANTS MaxDocs, MaxTime

VARIABLES docs,     \* all documents taken in
          tl        \* the timeline: sequence of events [k, n, w, r]

vars == <<docs, tl>>

Doc(n) == CHOOSE d \in docs : d.n = n
(* order of events at one moment: ends of documents that began earlier, begins, ends of empty documents *)
BeginEv(d) == [k |-> "B", n |-> d.n, w |-> d.cb, r |-> 1]
EndEv(d, w) == LET c == IF w < d.cb THEN d.cb ELSE w
               IN [k |-> "E", n |-> d.n, w |-> c, r |-> IF c > d.cb THEN 0 ELSE 2]
Before(a, b) == a.w < b.w \/ (a.w = b.w /\ a.r <= b.r)

InsertEv(s, e) ==       \* behind every event that is not after it
    LET k == Cardinality({i \in 1..Len(s) : Before(s[i], e)})
    IN SubSeq(s, 1, k) \o <<e>> \o SubSeq(s, k + 1, Len(s))
RemoveEvs(s, P(_)) == SelectSeq(s, LAMBDA e : ~P(e))

(* scans relative to the begin event b of the arriving document *)
Upto(s, b) == {i \in 1..Len(s) : Before(s[i], b)}
From(s, b) == {i \in 1..Len(s) : Before(b, s[i])}
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE Back(_, _, _, _)
(* the backward scan: <<"discarded", _>>, <<"trims", i>> the begin event at i is cut short, or <<"free", 0>> *)
Back(s, i, x, e) ==
    IF i = 0 THEN <<"free", 0>>
    ELSE IF s[i].n > x.n THEN <<"discarded", i>>
    ELSE IF s[i].k = "B" THEN (IF e = s[i].n THEN <<"free", 0>> ELSE <<"trims", i>>)
    ELSE IF e # 0 THEN <<"inconsistent", i>>
    ELSE Back(s, i - 1, x, s[i].n)

RECURSIVE Fwd(_, _, _, _)
(* the forward scan: <<"override", _>>, <<"cut", i>> the begin at i cuts the arriving one, <<"free", e>>; e the last end seen *)
Fwd(s, i, x, e) ==
    IF i > Len(s) THEN <<"free", 0, e>>
    ELSE IF s[i].k = "E" THEN Fwd(s, i + 1, x, i)
    ELSE IF s[i].n < x.n THEN <<"override", i, e>>
    ELSE <<"cut", i, e>>

FirstFrom(s, b) == Cardinality({i \in 1..Len(s) : Before(s[i], b) /\ ~Before(b, s[i])}) + 1

(* insertion when nothing has to be overridden *)
Place(s, x) ==
    LET b == BeginEv(x)
        bk == Back(s, Max0(Upto(s, b)), x, 0)
        fw == Fwd(s, FirstFrom(s, b), x, 0)
        cutAt == IF fw[1] = "cut" THEN s[fw[2]].w ELSE INF
        myEnd == IF cutAt # INF /\ (x.ce = INF \/ x.ce > cutAt) THEN cutAt ELSE x.ce
        s1 == IF bk[1] = "trims"
              THEN LET v == s[bk[2]].n
                       s0 == IF fw[3] # 0 THEN RemoveEvs(s, LAMBDA e : e = s[fw[3]]) ELSE s
                   IN InsertEv(s0, EndEv(Doc(v), x.cb))
              ELSE s
        s2 == InsertEv(s1, b)
    IN IF myEnd = INF THEN s2 ELSE InsertEv(s2, EndEv(x, myEnd))

Override(s, x) ==       \* drop every lower-numbered document that begins at or after x
    LET gone == {s[i].n : i \in {j \in 1..Len(s) : s[j].k = "B" /\ s[j].n < x.n /\ s[j].w >= x.cb}}
    IN RemoveEvs(s, LAMBDA e : e.n \in gone)

Add(x) ==
    LET b == BeginEv(x)
        bk == Back(tl, Max0(Upto(tl, b)), x, 0)
        fw == Fwd(tl, FirstFrom(tl, b), x, 0)
    IN /\ docs' = docs \cup {x}
       /\ tl' = IF bk[1] = "discarded" THEN tl
                ELSE IF bk[1] = "inconsistent" THEN Append(tl, [k |-> "X", n |-> x.n, w |-> x.cb, r |-> 9])
                ELSE IF fw[1] = "override" THEN Place(Override(tl, x), x)
                ELSE Place(tl, x)

Times == 0..MaxTime
NewDocs == {[n |-> n, cb |-> b, ce |-> e] : n \in 1..MaxDocs, b \in Times, e \in Times \cup {INF}}

Init == docs = {} /\ tl = <<>>
Next == \E x \in NewDocs : (\A d \in docs : d.n # x.n) /\ Cardinality(docs) < MaxDocs /\ Add(x)
Spec == Init /\ [][Next]_vars

(* what the timeline says *)
RECURSIVE Walk(_, _, _, _, _)
Walk(i, b, e, acc, s) ==
    IF i > Len(s) \/ s[i].w > e THEN acc
    ELSE Walk(i + 1, b, e,
              IF s[i].k = "B" THEN (IF s[i].w # e THEN Append(acc, s[i].n) ELSE acc)
              ELSE (IF s[i].w <= b THEN SelectSeq(acc, LAMBDA z : z # s[i].n) ELSE acc), s)
Lookup(b, e) == Walk(1, b, e, <<>>, tl)

Consistent == \A i \in 1..Len(tl) : tl[i].k # "X"
Sorted == \A i \in 1..Len(tl) - 1 : Before(tl[i], tl[i + 1])
HeldAgree == {tl[i].n : i \in 1..Len(tl)} = {d.n : d \in Held(docs)}
AlgorithmFollowsRule ==
    \A t \in 0..MaxTime :
        LET r == SelectSeq(Lookup(t, t + 1), LAMBDA n : ~NeverActive(docs, Doc(n)))
        IN IF ActiveAt(docs, t) = NoDoc THEN r = <<>> ELSE r = <<ActiveAt(docs, t)>>
RangesAgree ==
    \A b \in 0..MaxTime : \A e \in b + 1..MaxTime + 1 :
        {n \in {Lookup(b, e)[i] : i \in 1..Len(Lookup(b, e))} : ~NeverActive(docs, Doc(n))}
        = {d.n : d \in InRange(docs, b, e)}
EndsAgree ==
    \A d \in Held(docs) : ~NeverActive(docs, d) =>
        LET es == {tl[i].w : i \in {j \in 1..Len(tl) : tl[j].k = "E" /\ tl[j].n = d.n}}
        IN IF ResolvedEnd(docs, d) = INF THEN es = {} ELSE es = {ResolvedEnd(docs, d)}
(* R14, at the rule level: activations of held documents never overlap *)
AtMostOne ==
    \A a \in Held(docs) : \A c \in Held(docs) : a.n # c.n =>
        ~\E t \in 0..MaxTime : Meets(docs, a, t, t + 1) /\ Meets(docs, c, t, t + 1)
=============================================================================
