----------------------------- MODULE GeometryGen ----------------------------
(* Random chambers, points and paths.                                          *)
EXTENDS Geometry, TLC, Json
CONSTANTS Points, Paths
VARIABLES c, i
vars == <<c, i>>
R(n) == RandomElement(1..(n + 0 * i))
P1(n) == R(n) = 1
Num(a, b) == R(b - a + 1) + a - 1
Dirs == << <<1, 0>>, <<2, 1>>, <<1, 1>>, <<1, 2>>, <<0, 1>>, <<-1, 2>>, <<-1, 1>>, <<-2, 1>>,
           <<-1, 0>>, <<-2, -1>>, <<-1, -1>>, <<-1, -2>>, <<0, -1>>, <<1, -2>>, <<1, -1>>, <<2, -1>> >>
RECURSIVE Take(_, _)
Take(f, j) == IF j > 16 THEN <<>> ELSE (IF f[j] = 0 THEN <<>> ELSE << <<f[j] * Dirs[j][1], f[j] * Dirs[j][2]>> >>) \o Take(f, j + 1)
Star(P) == Len(P) >= 3 /\ \A j \in 1..Len(P) : Cross(P[j][1], P[j][2], Next1(P, j)[1], Next1(P, j)[2]) > 0
Rot(P, k) == [j \in 1..Len(P) |-> P[((j + k - 1) % Len(P)) + 1]]
\* without its reflex vertices
RECURSIVE Hull(_)
Hull(P) == IF \A j \in 1..Len(P) : Turn(P, j) >= 0 THEN P
           ELSE LET j == (CHOOSE j \in 1..Len(P) : Turn(P, j) < 0)
                    k == (j % Len(P)) + 1    \* the vertex in the middle
                IN Hull([m \in 1..(Len(P) - 1) |-> IF m < k THEN P[m] ELSE P[m + 1]])
Sizes == {1, 8, 32, 64, 128, 192, 320}
Ins(P) == {s \in Sizes \X Sizes : Inscribed(s[1], s[2], P)}
Best(P) == IF P1(3) THEN RandomElement(Ins(P)) ELSE CHOOSE s \in Ins(P) : \A r \in Ins(P) : s[1] * s[2] >= r[1] * r[2]
Box == 22
Pt == <<Num(-Box, Box), Num(-Box, Box)>>
Near(w) == <<w[1] + Num(-1, 1), w[2] + Num(-1, 1)>>
Mid(P, j) == LET a == P[j]  b == Next1(P, j) IN <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
Point(P) == LET k == R(6)  j == R(Len(P)) IN IF k = 1 THEN P[j] ELSE IF k = 2 THEN Mid(P, j) ELSE IF k = 3 THEN Near(P[j]) ELSE Pt
Start(P, N) == LET c0 == {w \in {Pt : n \in 1..N} : Inside(w, P)} IN IF c0 = {} THEN <<0, 0>> ELSE RandomElement(c0)
End(P, p) == LET k == R(6)  j == R(Len(P)) IN IF k = 1 THEN P[j] ELSE IF k = 2 THEN <<2 * P[j][1] - p[1], 2 * P[j][2] - p[2]>> ELSE IF k = 3 THEN Mid(P, j) ELSE IF k = 4 THEN Near(P[j]) ELSE Pt
RECURSIVE Walks(_, _)
Walks(P, n) == IF n = 0 THEN <<>> ELSE LET p == (IF P1(5) THEN <<0, 0>> ELSE Start(P, 8)) q == End(P, p) IN (IF Inside(q, P) THEN <<>> ELSE << <<p, q>> >>) \o Walks(P, n - 1)
EPt(a, b) == <<Num(-a - 1, a + 1), Num(-b - 1, b + 1)>>
EStart(a, b) == LET c0 == {w \in {EPt(a, b) : n \in 1..6} : EInside(w, a, b)} IN IF c0 = {} THEN <<0, 0>> ELSE RandomElement(c0)
EEnd(a, b) == LET k == R(6) IN IF k = 1 THEN <<a, 0>> ELSE IF k = 2 THEN <<0, -b>> ELSE IF k = 3 THEN <<2 * a, Num(-b, b)>> ELSE <<Num(-12, 12), Num(-12, 12)>>
RECURSIVE EWalks(_, _, _)
EWalks(a, b, n) == IF n = 0 THEN <<>> ELSE LET p == EStart(a, b) q == EEnd(a, b) IN (IF EInside(q, a, b) THEN <<>> ELSE << <<p, q>> >>) \o EWalks(a, b, n - 1)
None == [kind |-> "none", P |-> <<>>, convex |-> TRUE, cx |-> 1, cy |-> 1, a |-> 0, b |-> 0, pts |-> <<>>, paths |-> <<>>, wall |-> <<>>, exact |-> TRUE]
Poly(P0, s) == [None EXCEPT !.kind = "polyg", !.P = P0, !.convex = (Convex(P0) /\ ~P1(4)), !.cx = s[1], !.cy = s[2],
                            !.exact = (~Convex(P0) \/ P1(2)),
                            !.pts = [j \in 1..Points |-> Point(P0)], !.paths = Walks(P0, Paths),
                            !.wall = [j \in 1..6 |-> IF P1(2) THEN P0 ELSE [m \in 1..R(3) |-> IF P1(8) THEN Near(Mid(P0, R(Len(P0)))) ELSE IF P1(2) THEN Mid(P0, R(Len(P0))) ELSE P0[R(Len(P0))]]]]
Flip(P) == [j \in 1..Len(P) |-> P[Len(P) + 1 - j]]
Dup(P, j) == [m \in 1..(Len(P) + 1) |-> IF m <= j THEN P[m] ELSE P[m - 1]]
RadiusF(m) == [j \in 1..16 |-> IF R(5) <= m THEN Num(3, 9) ELSE 0]
RectP(x, y) == << <<x, y>>, <<-x, y>>, <<-x, -y>>, <<x, -y>> >>
Init == i = 0 /\ c = None
Next == /\ i' = i + 1
        /\ \E k \in {R(10)}, f \in {RadiusF(Num(2, 4))} : \E S0 \in {Take(f, 1)} :
           \E S \in {IF Star(S0) THEN S0 ELSE RectP(7, 5)} : \E H \in {IF P1(2) THEN Hull(S) ELSE S} : \E P \in {Rot(H, R(Len(H)))} :
           \E s \in {IF Ins(P) = {} THEN <<0, 0>> ELSE Best(P)} :
           CASE s = <<0, 0>> -> c' = None
             [] s # <<0, 0>> /\ k <= 5 -> c' = Poly(P, s)
             [] s # <<0, 0>> /\ k = 6 -> \E x \in {Num(2, 18)}, y \in {Num(2, 18)} : c' = [Poly(RectP(x, y), <<1, 1>>) EXCEPT !.kind = "rect"]
             [] s # <<0, 0>> /\ k \in {7, 8} -> \E a \in {Num(3, 10)}, b \in {Num(3, 10)} :
                     c' = [None EXCEPT !.kind = "ellip", !.a = a, !.b = b, !.exact = P1(2), !.pts = [j \in 1..Points |-> EPt(a, b)], !.paths = EWalks(a, b, Paths)]
             [] s # <<0, 0>> /\ k = 9 -> \E B \in {IF P1(2) THEN Flip(P) ELSE Dup(P, R(Len(P)))} : c' = [None EXCEPT !.kind = "polyg", !.P = B, !.convex = P1(2), !.cx = s[1], !.cy = s[2]]
             [] s # <<0, 0>> /\ k = 10 -> c' = [None EXCEPT !.kind = "polyg", !.P = P, !.convex = TRUE, !.cx = s[1], !.cy = s[2]]
Spec == Init /\ [][Next]_vars
Emit == c.kind = "none" \/ PrintT("BEH " \o ToJson(c))
=============================================================================
