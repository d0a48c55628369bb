------------------------------ MODULE P12Trace ------------------------------
EXTENDS ResolveRule, TraceBase
VARIABLES l, dead
Init == l = 1 /\ dead = TRUE
Els(e) ==
    LET D == e.D
        T == D.T
        N == TLCEval(NodeSpecs(D))
        R == TLCEval(RegionSpecs(D))
        One(i) == LET o == e.els[i]
                      f == FontSize(T, N, R, e.sizes, e.px, i)
                      h == LineHeight(T, N, R, e.sizes, e.px, i)
                  IN Bad("specified", o.spec = N[i])
                     \cup UNION {Bad("attribute:" \o a, o.at[a] = Used(T, N, R, i, a)) : a \in Inherited \cup Simple}
                     \cup Bad("font_size:" \o T[i].k, IF o.fs.u = "c" THEN o.fs.h = f.h /\ o.fs.v = f.v
                                                      ELSE T[i].k \in {"body", "div"} /\ o.fs.u # "inexact")
                     \cup Bad("line_height", ~h.known \/ (o.lh.normal = h.normal /\ (h.normal \/ o.lh.v = h.v)))
        Reg(j) == LET o == e.regions[j]
                      f == R[D.R[j].id]
                      z == RegionFont(R, e.sizes, e.px, D.R[j].id)
                  IN Bad("region_specified", o.spec = f)
                     \cup UNION {Bad("region_attribute:" \o a, o.at[a] = IF a \in DOMAIN f THEN f[a] ELSE Default(a)) :
                                 a \in Inherited \cup Simple}
                     \cup Bad("region_font_size", o.fs.u = "c" /\ o.fs.h = z.h /\ o.fs.v = z.v)
    IN UNION {One(i) : i \in {j \in DOMAIN T : Timed(T, j)}} \cup UNION {Reg(j) : j \in DOMAIN D.R}
Clauses(e) == IF e.out # "ok" THEN {"outcome:" \o e.out} ELSE Els(e)
Step(e) ==
    IF e.ev = "reset" THEN dead' = FALSE
    ELSE IF dead THEN UNCHANGED dead
    ELSE LET bad == Clauses(e) IN Report(l, bad) /\ dead' = (bad # {})
Next == l <= Len_ /\ Step(Trace[l]) /\ Consumed(l) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, dead>>
=============================================================================
