------------------------------ MODULE PrimaryGen -----------------------------
(* Random sources, rates, chambers and regions.                                 *)
EXTENDS Primary, TLC, Json
VARIABLES c, i
vars == <<c, i>>
R(n) == RandomElement(1..(n + 0 * i))
P1(n) == R(n) = 1
Num(a, b) == R(b - a + 1) + a - 1
Pick(s) == s[R(Len(s))]
Polys == << << <<20, 0>>, <<10, 10>>, <<-10, 10>>, <<-20, 0>>, <<-10, -10>>, <<10, -10>> >>,
            << <<24, -6>>, <<24, 6>>, <<12, 12>>, <<-24, 6>>, <<-24, -6>>, <<0, -12>> >>,
            << <<16, 0>>, <<0, 16>>, <<-16, 0>>, <<0, -16>> >> >>
PolyAx == <<20, 24, 16>>
PolyAy == <<10, 12, 16>>
Cham(kind) == IF kind = "poly" THEN LET n == R(3) IN [kind |-> "poly", ax |-> PolyAx[n], ay |-> PolyAy[n], V |-> Polys[n]]
              ELSE LET a == Pick(<< <<20, 10>>, <<30, 20>>, <<16, 16>>, <<12, 24>> >>) IN [kind |-> kind, ax |-> a[1], ay |-> a[2], V |-> <<>>]
AnyCham == Cham(Pick(<<"rect", "rect", "ellip", "poly">>))
\* a box with whole-number sides
Box(H) == LET x == Num(-H.ax, H.ax - 3)  y == Num(-H.ay, H.ay - 3) IN <<x, Num(x + 3, H.ax), y, Num(y + 3, H.ay)>>
Boxes(H, n) == [j \in 1..n |-> Box(H)]
En == LET d == Pick(<<"lognormal", "gaussian", "rect", "mono", "lorentz">>)  n == R(4) IN [d |-> d, m |-> n]
Ang == Pick(<<"cosine_3D", "cosine_3D", "cosine_2D", "normal_emission">>)
\* charge per call: p * s * lam * dt / T; small steps of many calls, or one large
Rate == [p |-> Num(1, 6), s |-> Num(1, 3), T |-> Pick(<<1, 2, 3>>), lam |-> Pick(<<0, 1, 2, 3, 5, 8>>), dt |-> Num(1, 3)]
Common(H) == [cham |-> H, ref |-> Num(3, 60), rate |-> Rate, calls |-> Num(20, 60), big |-> Num(2500, 5000), old |-> Pick(<<0, 0, 7, 40>>), life |-> P1(2),
              boxes |-> Boxes(H, 6), E0 |-> Pick(<<0, 1, 100>>)]
\* beams: at whole half-sigma distances from the walls of rectangles; well inside other chambers
Beam(H) == IF H.kind = "rect" THEN LET sx == Pick(<<2, 4, 8>>)  sy == Pick(<<2, 4, 8>>) IN [sx |-> sx, sy |-> sy, x |-> H.ax - (sx \div 2) * Num(1, (4 * H.ax) \div sx - 1), y |-> H.ay - (sy \div 2) * Num(1, (4 * H.ay) \div sy - 1)]
           ELSE [sx |-> 2, sy |-> 2, x |-> 0, y |-> 0]
\* a distribution of angles: increasing edges (units of pi/16) and shares in hundredths
Cdf3(a, b) == LET x == Num(a, b - 3)  y == Num(x + 1, b - 2)  z == Num(y + 1, b - 1)  w == Num(z + 1, b)  p == Num(0, 60)  r == Num(0, 40) IN [e |-> <<x, y, z, w>>, p |-> <<p, r, 100 - p - r>>]
SegCdf(n) == SubSeq(Pick(<< <<1, 0, 2, 0, 3, 1>>, <<0, 1, 0, 0, 2, 0>>, <<3, 1, 2, 1, 0, 0>>, <<0, 0, 1, 1, 2, 3>>, <<0, 3, 0, 0, 0, 0>>, <<1, 1, 1, 1, 1, 1>>, <<0, 0, 0, 2, 0, 1>> >>), 1, n)
Gas == LET H == AnyCham IN Common(H) @@ [kind |-> "gas", unif |-> Pick(<<0, 0, 30, 100>>), beam |-> Beam(H)]
\* the middle of a box to fill is inside
FillBox(H) == LET b == Box(H) IN IF Inside(H, <<(b[1] + b[2]) \div 2, (b[3] + b[4]) \div 2>>) THEN b ELSE Whole(H)
Fill(k) == LET H == AnyCham IN Common(H) @@ [kind |-> k, none |-> P1(3), box |-> FillBox(H)]
File == Common(AnyCham) @@ [kind |-> "file", n |-> Num(1, 30), str |-> P1(2), last |-> P1(2)]
Photo == LET H == AnyCham IN Common(H) @@ [kind |-> "photo", en |-> En, ang |-> Ang, refl |-> Pick(<<0, 30, 70, 100>>), unif |-> P1(2), x0 |-> Pick(IF H.kind = "poly" THEN <<"right", "zero">> ELSE <<"left", "right", "zero">>), cdfl |-> Cdf3(9, 14), cdfr |-> (IF H.kind = "poly" THEN Cdf3(-3, 3) ELSE Cdf3(-6, 6)), cdf0 |-> Cdf3(-12, 12),
            cont |-> P1(3), lams |-> [j \in 1..4 |-> Num(0, 6)], neg |-> P1(2)]
All == Common(AnyCham) @@ [kind |-> "all", en |-> En, ang |-> Ang, unif |-> P1(3), dict |-> P1(2), cdf |-> Cdf3(-16, 16), cont |-> P1(3), lams |-> [j \in 1..4 |-> Num(0, 6)]]
Seg == LET H == Cham("poly") IN Common(H) @@ [kind |-> "seg", en |-> En, ang |-> Ang, p |-> SegCdf(Len(H.V)), fine |-> P1(2), cont |-> P1(3), lams |-> [j \in 1..4 |-> Num(0, 6)]]
\* who is active in a simulation of several clouds and beams; windows end half a step after step tion
Set2(nc) == IF nc = 1 THEN Pick(<< <<>>, <<1>>, <<1>> >>) ELSE Pick(<< <<1>>, <<2>>, <<1, 2>> >>)
Run == LET nc == Num(1, 2) IN [kind |-> "run", nc |-> nc, nb |-> Num(1, 2), gas |-> Set2(nc), photo |-> Set2(nc), tion |-> <<Num(-1, 7), Num(-1, 7)>>, steps |-> Num(3, 8)]
Init == i = 0 /\ c = [kind |-> "none"]
Next == /\ i' = i + 1
        /\ \E k \in {R(9)} : c' = CASE k \in {1, 2} -> Gas [] k = 3 -> Fill("fill") [] k = 4 -> Fill("dens") [] k = 5 -> (IF P1(3) THEN File ELSE Seg) [] k = 6 -> Photo [] k = 7 -> All [] k = 8 -> Run [] OTHER -> Photo
Spec == Init /\ [][Next]_vars
Emit == c.kind = "none" \/ PrintT("BEH " \o ToJson(c))
=============================================================================
