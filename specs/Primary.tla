------------------------------- MODULE Primary -------------------------------
(* Primary electrons: residual-gas ionization, photoemission, initial fills.    *)
(* Lengths in units of a millimetre, charges in units; C is one configuration:  *)
(*   C.cham = [kind, ax, ay, V]     the chamber; V: vertices of a convex polygon *)
(*   C.ref                          charge of a macroparticle                    *)
EXTENDS Integers, Sequences, FiniteSets
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
Mag(a) == IF a < 0 THEN -a ELSE a
RECURSIVE SumSeq(_, _), Isqrt(_, _)
SumSeq(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumSeq(F, n - 1)
Isqrt(n, x) == IF x * x >= n THEN x ELSE Isqrt(n, x + 1)

\* ---- numbers: an expected charge num/den becomes one of the two neighbouring whole numbers of macroparticles
Floor(num, den) == num \div den
Ceil(num, den) == (num + den - 1) \div den
\* drawing u uniformly from 0..den-1
Rounded(num, den, u) == num \div den + (IF u < num % den THEN 1 ELSE 0)

\* ---- chambers
At(s, j) == s[((j - 1) % Len(s)) + 1]
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Inside(H, p) == CASE H.kind = "rect" -> Mag(p[1]) <= H.ax /\ Mag(p[2]) <= H.ay
                  [] H.kind = "ellip" -> p[1] * p[1] * H.ay * H.ay + p[2] * p[2] * H.ax * H.ax <= H.ax * H.ax * H.ay * H.ay
                  [] OTHER -> \A j \in 1..Len(H.V) : Cross(H.V[j], At(H.V, j + 1), p) >= 0
BoxIn(H, b) == \A x \in {b[1], b[2]} : \A y \in {b[3], b[4]} : Inside(H, <<x, y>>)
Area(b) == Hi(0, b[2] - b[1]) * Hi(0, b[4] - b[3])
Cut(a, b) == <<Hi(a[1], b[1]), Lo(a[2], b[2]), Hi(a[3], b[3]), Lo(a[4], b[4])>>
Whole(H) == <<-H.ax, H.ax, -H.ay, H.ay>>
\* 113 times the area of the chamber
Area113(H) == CASE H.kind = "rect" -> 113 * 4 * H.ax * H.ay
                [] H.kind = "ellip" -> 355 * H.ax * H.ay
                [] OTHER -> (113 * SumSeq(LAMBDA j : H.V[j][1] * At(H.V, j + 1)[2] - H.V[j][2] * At(H.V, j + 1)[1], Len(H.V))) \div 2

\* ---- the normal distribution in half standard deviations, in ten-thousandths
PhiTab == <<5000, 6915, 8413, 9332, 9772, 9938, 9987, 9998, 10000>>
Phi(h) == IF h >= 8 THEN 10000 ELSE IF h <= -8 THEN 0 ELSE IF h >= 0 THEN PhiTab[h + 1] ELSE 10000 - PhiTab[1 - h]
\* share between h1 and h2 of what lies between w1 and w2
Between(h1, h2, w1, w2) == LET a == Hi(h1, w1)  b == Lo(h2, w2) IN
   IF b <= a THEN 0 ELSE ((Phi(b) - Phi(a)) * 10000) \div (Phi(w2) - Phi(w1))
=============================================================================
