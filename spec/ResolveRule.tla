---------------------------- MODULE ResolveRule ----------------------------
(* RULE level: the styles an element ends up with.  A document D is [S, R, T]: styles, regions and nodes as in StyleRule;
   a region's own attributes are in its at.  Sizes: Size maps the text of a size to [u, h, v], u one of "c", "%", "px",
   in 1/Cell cells, quarters of a hundred percent, and pixels; px is the number of pixels of a cell. *)
EXTENDS StyleRule
CONSTANT NoVal
Cell == 4096

Inherited == {"color", "direction", "fontFamily", "fontStyle", "fontWeight", "linePadding", "multiRowAlign",
              "textAlign", "textDecoration", "wrapOption"}
Simple == {"backgroundColor", "padding", "unicodeBidi"}
Default(a) == CASE a = "color" -> "" [] a = "direction" -> "ltr" [] a = "fontFamily" -> "default"
                [] a = "fontStyle" -> "normal" [] a = "fontWeight" -> "normal" [] a = "linePadding" -> "0c"
                [] a = "multiRowAlign" -> "auto" [] a = "textAlign" -> "start" [] a = "textDecoration" -> "none"
                [] a = "wrapOption" -> "wrap" [] a = "backgroundColor" -> "transparent" [] a = "padding" -> "0px"
                [] a = "unicodeBidi" -> "normal"

(* what is specified for each node and each region *)
NodeSpecs(D) == [i \in DOMAIN D.T |-> IF Timed(D.T, i) THEN Specified(D.S, D.T[i].st, NoAt) ELSE NoAt]
Own(at) == [a \in DOMAIN at \cap {"padding"} |-> at[a]]
RegionSpecs(D) == [x \in Ids(D.R) |-> Specified(D.S, ById(D.R, x).st, Own(ById(D.R, x).at))]
RECURSIVE RegionAt(_, _)
RegionAt(T, i) == IF i = 0 THEN "" ELSE IF T[i].rg # "" THEN T[i].rg ELSE RegionAt(T, T[i].par)
Stated(f, a) == IF a \in DOMAIN f THEN f[a] ELSE NoVal

(* N, R: what is specified *)
RECURSIVE Resolved(_, _, _, _, _)
Resolved(T, N, R, i, a) ==
    IF i = 0 THEN NoVal
    ELSE IF a \in DOMAIN N[i] THEN N[i][a]
    ELSE LET up == Resolved(T, N, R, T[i].par, a)
         IN IF up # NoVal THEN up ELSE IF RegionAt(T, i) = "" THEN NoVal ELSE Stated(R[RegionAt(T, i)], a)
Used(T, N, R, i, a) == LET v == IF a \in Inherited THEN Resolved(T, N, R, i, a) ELSE Stated(N[i], a)
                       IN IF v = NoVal THEN Default(a) ELSE v

(* font sizes, as pairs *)
OneCell == [h |-> Cell, v |-> Cell]
Absolute(s, px) == IF s.u = "c" THEN [h |-> s.h, v |-> s.v] ELSE [h |-> (s.h * Cell) \div px, v |-> (s.v * Cell) \div px]
Times_(b, s) == [h |-> (b.h * s.h) \div 4, v |-> (b.v * s.v) \div 4]
Apply(f, Size, px, base) == IF "fontSize" \notin DOMAIN f THEN base
                            ELSE LET s == Size[f["fontSize"]] IN IF s.u = "%" THEN Times_(base, s) ELSE Absolute(s, px)
RegionFont(R, Size, px, r) == IF r = "" THEN OneCell ELSE Apply(R[r], Size, px, OneCell)
(* the region that sizes are relative to: that of the outermost element that is put into one *)
RECURSIVE OuterRegion(_, _)
OuterRegion(T, i) == IF i = 0 THEN ""
                     ELSE LET up == OuterRegion(T, T[i].par) IN IF up # "" THEN up ELSE T[i].rg
RECURSIVE Font(_, _, _, _, _, _, _)
Font(T, N, R, Size, px, i, outer) ==
    IF i = 0 THEN RegionFont(R, Size, px, outer)
    ELSE Apply(N[i], Size, px, Font(T, N, R, Size, px, T[i].par, outer))
FontSize(T, N, R, Size, px, i) == Font(T, N, R, Size, px, i, OuterRegion(T, i))

(* line heights: [known, normal, v]; not known where a percentage is of a font size that content may still change *)
Normal == [known |-> TRUE, normal |-> TRUE, v |-> 0]
Height(f, Size, px, font, final) ==
    LET s == f["lineHeight"] IN
    IF s = "normal" THEN Normal
    ELSE IF Size[s].u = "%" THEN [known |-> final, normal |-> FALSE, v |-> (font.v * Size[s].v) \div 4]
    ELSE [known |-> TRUE, normal |-> FALSE, v |-> Absolute(Size[s], px).v]
RECURSIVE LineHeight(_, _, _, _, _, _)
LineHeight(T, N, R, Size, px, i) ==
    IF i = 0 THEN [Normal EXCEPT !.v = NoVal]
    ELSE IF "lineHeight" \in DOMAIN N[i]
    THEN Height(N[i], Size, px, FontSize(T, N, R, Size, px, i), T[i].k \in {"p", "span"})
    ELSE LET up == LineHeight(T, N, R, Size, px, T[i].par)
             r == RegionAt(T, i)
         IN IF up.v # NoVal THEN up
            ELSE IF r = "" \/ "lineHeight" \notin DOMAIN R[r] THEN up
            ELSE Height(R[r], Size, px, RegionFont(R, Size, px, r), TRUE)
=============================================================================
