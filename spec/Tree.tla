-------------------------------- MODULE Tree --------------------------------
(* Growing document trees in document order. *)
EXTENDS Naturals, Sequences
KindsIn(k) == CASE k = "none" -> {"body"} [] k = "body" -> {"div"} [] k = "div" -> {"div", "p"}
                [] k = "p" -> {"span"} [] k = "span" -> {"span"} [] OTHER -> {}
RECURSIVE OpenPath(_, _)
OpenPath(T, i) == IF i = 0 THEN {} ELSE {i} \cup OpenPath(T, T[i].par)
(* the elements a next node can be put into *)
Open(T) == OpenPath(T, Len(T))
RECURSIVE Depth(_, _)
Depth(T, i) == IF i = 0 THEN 0 ELSE 1 + Depth(T, T[i].par)
KindOf(T, i) == IF i = 0 THEN "none" ELSE T[i].k
=============================================================================
