---------------------------- MODULE TimelineRule ----------------------------
(* The activation timeline of a document sequence (R14-R17 of EBU Tech 3370) and its intake rules.

   This module is the RULE: which document is active at a moment, from the set of documents taken in, with no
   notion of arrival order.  Timeline.tla has the algorithm that maintains it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == -1            \* "no end": an open ended document

(* A document, as far as activation goes: number n, computed begin cb, computed end ce (INF if open). *)

---------------------------------------------------------------------------
(* RULE level, over a set of taken documents D *)

NoDoc == 0
Begun(D, t) == {d \in D : d.cb <= t}
Highest(S) == CHOOSE d \in S : \A x \in S : x.n <= d.n
EndsAfter(d, t) == d.ce = INF \/ d.ce > t

ActiveAt(D, t) == IF Begun(D, t) = {} THEN NoDoc
                  ELSE LET d == Highest(Begun(D, t)) IN IF EndsAfter(d, t) THEN d.n ELSE NoDoc

Later(D, d) == {x.cb : x \in {y \in D : y.n > d.n}}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
ResolvedEnd(D, d) ==                     \* INF if open
    LET ends == Later(D, d) \cup (IF d.ce = INF THEN {} ELSE {d.ce})
    IN  IF ends = {} THEN INF ELSE MinOf(ends)
Discarded(D, d) == \E x \in D : x.n > d.n /\ x.cb <= d.cb
Held(D) == {d \in D : ~Discarded(D, d)}
NeverActive(D, d) == ResolvedEnd(D, d) # INF /\ ResolvedEnd(D, d) <= d.cb

(* does the activation of d meet the range [b, e)?  b or e may be INF: not bounded *)
Meets(D, d, b, e) == /\ ~NeverActive(D, d)
                     /\ (e = INF \/ d.cb < e)
                     /\ (b = INF \/ ResolvedEnd(D, d) = INF \/ ResolvedEnd(D, d) > b)

InRange(D, b, e) == {d \in Held(D) : Meets(D, d, b, e)}

(* intake: what happens to an offered document x = [n, sid, tb, cm, ag, cb, ce];
   s = [sid, tb, cm, ag, docs]; ag = "" is "none" *)
IntakeOutcome(s, x) ==
    IF x.sid # s.sid \/ x.tb # s.tb THEN "incompatible"
    ELSE IF s.tb = "clock" /\ x.cm # s.cm THEN "incompatible"
    ELSE IF \E d \in Held(s.docs) : d.n = x.n THEN "collision"
    ELSE IF x.ag # "" /\ s.ag # "" /\ x.ag # s.ag THEN "group"
    ELSE "ok"

Intake(s, x) ==
    IF IntakeOutcome(s, x) # "ok" THEN s
    ELSE [s EXCEPT !.docs = @ \cup {[n |-> x.n, cb |-> x.cb, ce |-> x.ce, u |-> Cardinality(@) + 1]},
                   !.ag = IF @ = "" THEN x.ag ELSE @,
                   !.last = IF x.n > @ THEN x.n ELSE @]
=============================================================================
