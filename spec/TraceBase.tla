----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications.  A trace file holds many recorded executions, each starting with a
   "reset" event.  Every event is consumed; an event that is not a behaviour of the specification is reported with
   the clauses it breaks, and the rest of that execution is skipped. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Len_ == Len(Trace)

Report(l, bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", l, bad>>)
Consumed(l) == IF l = Len_ THEN PrintT(<<"CONSUMED", l>>) ELSE TRUE

Bad(name, holds) == IF holds THEN {} ELSE {name}
Range_(s) == {s[i] : i \in DOMAIN s}
=============================================================================
