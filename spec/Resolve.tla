------------------------------ MODULE Resolve ------------------------------
(* Design level: how styles are computed on the way down.  Body and div may not know their region yet: a percentage
   stays one there until there is a region, or content that has to know. *)
EXTENDS ResolveRule, Json
CONSTANTS Fonts, Mutant
VARIABLES D
Names == <<"a", "b">>
Size == [x \in {"50%", "200%", "2c"} |-> CASE x = "50%" -> [u |-> "%", h |-> 2, v |-> 2] [] x = "200%" -> [u |-> "%", h |-> 8, v |-> 8]
                                            [] x = "2c" -> [u |-> "c", h |-> 2 * Cell, v |-> 2 * Cell]]
At(col, fs) == [x \in (IF col THEN {"color"} ELSE {}) \cup (IF fs = "" THEN {} ELSE {"fontSize"}) |->
                   IF x = "color" THEN "red" ELSE fs]
Lists == {<<>>, <<"a">>, <<"b">>}
Node(k, p, st, rg) == [k |-> k, par |-> p, st |-> st, rg |-> rg]
Init == \E fa, fb \in Fonts, ca \in BOOLEAN, link \in {<<<<>>, <<>>>>, <<<<"b">>, <<>>>>, <<<<>>, <<"a">>>>}, rs \in Lists :
    D = [S |-> <<[id |-> "a", st |-> link[1], at |-> At(ca, fa)], [id |-> "b", st |-> link[2], at |-> At(FALSE, fb)]>>,
         R |-> <<[id |-> "r", st |-> rs, at |-> NoAt], [id |-> "q", st |-> <<"a">>, at |-> NoAt]>>, T |-> <<>>]
Kind(n) == <<"body", "div", "p", "span">>[n]
Next == /\ Len(D.T) < 4
        /\ \E st \in Lists, rg \in (IF Len(D.T) \in {1, 2} THEN {"", "r", "q"} ELSE {""}) :
             D' = [D EXCEPT !.T = Append(@, Node(Kind(Len(@) + 1), Len(@), st, rg))]
Spec == Init /\ [][Next]_D

(* the algorithm: size is none, a percentage or a size in cells *)
Fs(u, n) == [u |-> u, n |-> n]
OwnFs(f) == IF "fontSize" \notin DOMAIN f THEN Fs("none", 0) ELSE IF Size[f["fontSize"]].u = "%" THEN Fs("%", Size[f["fontSize"]].v * 1024) ELSE Fs("c", Size[f["fontSize"]].v)
Mul(x, y) == IF x.u = "%" /\ y.u = "%" THEN Fs("%", (x.n * y.n) \div Cell) ELSE Fs("c", (x.n * y.n) \div Cell)
RegFs(R, r) == LET o == OwnFs(R[r]) IN IF o.u = "none" THEN Fs("c", Cell) ELSE IF o.u = "%" THEN Mul(o, Fs("c", Cell)) ELSE o
RECURSIVE Size_(_, _, _, _)
Size_(T, N, R, i) ==
    IF i = 0 THEN Fs("none", 0)
    ELSE LET own == OwnFs(N[i])
             up == Size_(T, N, R, T[i].par)
             r == RegionAt(T, i)
             reg == IF r = "" THEN Fs("none", 0) ELSE RegFs(R, r)
             first == IF own.u = "c" THEN own
                      ELSE IF up.u = "none" THEN own
                      ELSE IF own.u = "none" THEN up ELSE Mul(up, own)
             second == IF first.u = "c" THEN first
                       ELSE IF reg.u = "none" \/ (Mutant = "late" /\ up.u = "%" /\ own.u = "%") THEN first
                       ELSE IF first.u = "none" THEN reg ELSE Mul(first, reg)
         IN IF second.u = "c" \/ T[i].k \in {"body", "div"} THEN second
            ELSE IF second.u = "none" THEN Fs("c", Cell) ELSE Mul(second, Fs("c", Cell))
RECURSIVE Col_(_, _, _, _)
Col_(T, N, R, i) ==
    IF i = 0 THEN NoVal
    ELSE LET up == Col_(T, N, R, T[i].par)
             r == RegionAt(T, i)
             reg == IF r = "" THEN NoVal ELSE Stated(R[r], "color")
         IN CHOOSE v \in {Stated(N[i], "color"), up, reg} :
              /\ v = NoVal => Stated(N[i], "color") = NoVal /\ up = NoVal /\ reg = NoVal
              /\ Stated(N[i], "color") # NoVal => v = Stated(N[i], "color")
              /\ Stated(N[i], "color") = NoVal /\ up # NoVal => v = up
Computes ==
    LET N == NodeSpecs(D)
        R == RegionSpecs(D)
        i == Len(D.T)
    IN i > 0 => LET s == Size_(D.T, N, R, i) IN
         /\ (D.T[i].k \in {"p", "span"} => s.u = "c")
         /\ (s.u = "c" => s.n = FontSize(D.T, N, R, Size, 20, i).v)
         /\ Col_(D.T, N, R, i) = Resolved(D.T, N, R, i, "color")

(* a hundred percent changes nothing *)
GenInit == D = [S |-> <<>>, R |-> <<>>, T |-> <<>>]
GFonts == {"", "50%", "100%", "200%", "2c", "10px", "1c 2c", "50% 200%"}
GCols == {"", "#ff0000", "#00ff00"}
GAt(c, f, t) == [x \in (IF c = "" THEN {} ELSE {"color"}) \cup (IF f = "" THEN {} ELSE {"fontSize"}) \cup (IF t = "" THEN {} ELSE {"textAlign"}) |->
                    CASE x = "color" -> c [] x = "fontSize" -> f [] x = "textAlign" -> t]
GNames == <<"a", "b", "c">>
GRefs == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<3, 2, 1>>}
GLater(n) == {s \in GRefs : \A i \in DOMAIN s : s[i] > n}
GIds(s) == [i \in DOMAIN s |-> GNames[s[i]]]
GStyles(n) == {[id |-> GNames[n], st |-> GIds(g), at |-> GAt(c, f, t)] :
                 g \in GLater(n), c \in GCols, f \in GFonts, t \in {"", "left", "right"}}
GRegions(x) == {[id |-> x, st |-> GIds(g), at |-> NoAt] : g \in GRefs}
GNodes(k, p) == {Node(k, p, GIds(g), r) : g \in GRefs, r \in (IF k \in {"div", "p"} THEN {"", "r", "q"} ELSE {""})}
Shape == << <<"body", 0>>, <<"div", 1>>, <<"div", 2>>, <<"p", 3>>, <<"span", 4>>, <<"span", 5>>, <<"span", 4>>,
            <<"p", 2>>, <<"span", 8>> >>
GenNext == D.T = <<>> /\
    D' = [S |-> [n \in 1..3 |-> RandomElement(GStyles(n))],
          R |-> <<RandomElement(GRegions("r")), RandomElement(GRegions("q"))>>,
          T |-> [i \in DOMAIN Shape |-> RandomElement(GNodes(Shape[i][1], Shape[i][2]))]]
Emit == D.T # <<>> => PrintT(<<"BEH", ToJson(D)>>)
=============================================================================
