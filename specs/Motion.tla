------------------------------- MODULE Motion -------------------------------
(* Motion of charged macroparticles on a lattice, in exact rational            *)
(* arithmetic.  Unit of velocity: one lattice spacing per substep.             *)
(*                                                                             *)
(* A substep of the leap-frog (Boris) scheme: half of the electric kick, a     *)
(* rotation about the magnetic field, the other half of the kick, and a drift  *)
(* with the new velocity.  With t = charge/mass * B * dt/2 = T/H the rotation  *)
(* is by 2*atan|t|:  v' = v + v x t;  v+ = v + 2/(1+t.t) v' x t.               *)
(*                                                                             *)
(* The exact motion of an electron in a uniform transverse field is also       *)
(* given, for any whole number of quarter turns (Turn).                        *)
EXTENDS Integers, Sequences

AbsI(a) == IF a < 0 THEN -a ELSE a
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Mul(n, a) == <<n * a[1], n * a[2], n * a[3]>>
Neg(a) == Mul(-1, a)
Sub3(a, b) == Add(a, Neg(b))
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Zero == <<0, 0, 0>>

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN AbsI(a) ELSE GCD(b, a % b)
RECURSIVE GCDAll(_, _)
GCDAll(s, g) == IF s = <<>> \/ g = 1 THEN g ELSE GCDAll(Tail(s), GCD(Head(s) % g, g))
\* a particle: position x/d, velocity v/d
Reduce(p) == LET g == GCDAll(p.x \o p.v, p.d) IN
             IF g = 1 THEN p ELSE [x |-> [i \in 1..3 |-> p.x[i] \div g], v |-> [i \in 1..3 |-> p.v[i] \div g], d |-> p.d \div g]
Particle(x, v) == [x |-> x, v |-> v, d |-> 1]

\* --- the magnetic field (integer multiples of its unit) at integer positions
\* b, s: multipole coefficients (normal, skew) of x+iy to the power 0, 1, 2;  By + i Bx = sum (b + i s)(x + iy)^n
RECURSIVE Power(_, _)
Power(z, n) == IF n = 0 THEN <<1, 0>> ELSE LET w == Power(z, n - 1) IN <<w[1] * z[1] - w[2] * z[2], w[1] * z[2] + w[2] * z[1]>>
Coef(c, n) == IF n < Len(c) THEN c[n + 1] ELSE 0
RECURSIVE Multipole(_, _, _, _)
Multipole(b, s, x, n) ==
    IF n < 0 THEN Zero
    ELSE LET w == Power(<<x[1], x[2]>>, n)
         IN Add(<<Coef(b, n) * w[2] + Coef(s, n) * w[1], Coef(b, n) * w[1] - Coef(s, n) * w[2], 0>>, Multipole(b, s, x, n - 1))
\* map: values at the even lattice positions (sequences of columns), linear in each direction in between, nothing outside
Node(m, i, j, K) == m[i + K + 1][j + K + 1]
Linear(m, x, K) == LET i == x[1] \div 2    j == x[2] \div 2
                       i2 == (x[1] + 1) \div 2    j2 == (x[2] + 1) \div 2
                   IN IF AbsI(x[1]) >= 2 * K \/ AbsI(x[2]) >= 2 * K THEN 0 ELSE (Node(m, i, j, K) + Node(m, i2, j, K) + Node(m, i, j2, K) + Node(m, i2, j2, K)) \div 4
FieldAt(f, x) ==
    Add(f.b0, CASE f.kind = "none" -> Zero
                [] f.kind = "multi" -> Multipole(f.b, f.s, x, 2)
                [] f.kind = "map" -> <<Linear(f.mx, x, f.K), Linear(f.my, x, f.K), Linear(f.mz, x, f.K)>>)
Uniform(f) == f.kind = "none" \/ (f.kind = "multi" /\ \A n \in {1, 2} : Coef(f.b, n) = 0 /\ Coef(f.s, n) = 0)

\* --- leap-frog
SubStep(p, T, H, g) ==
    LET D == H * H + Dot(T, T)
        m == Add(p.v, Mul(p.d, g))
        c == Cross(m, T)
        w == Add(Mul(D, m), Mul(2, Add(Mul(H, c), Cross(c, T))))
        v1 == Add(w, Mul(p.d * D, g))
    IN Reduce([x |-> Add(Mul(D, p.x), v1), v |-> v1, d |-> p.d * D])
RECURSIVE SubSteps(_, _, _, _, _)
SubSteps(p, n, T, H, g) == IF n = 0 THEN p ELSE SubSteps(SubStep(p, T, H, g), n - 1, T, H, g)
\* one call for one macroparticle: the field is taken where it is; in a non-uniform field: one substep from a lattice position
\* (q: sign of the charge, c: additional field of this macroparticle)
Call(p, f, c, q, n, H, g) == SubSteps(p, n, Mul(q, Add(FieldAt(f, p.x), c)), H, g)

\* --- exact motion of an electron over k/b quarter turns of a cyclotron period (b = |B| >= 1), unit of length: velocity / frequency of the unit field
\* velocity = (VN + k pi/2 VP) / b^3,   position = (XN + k pi/2 XP + (k pi/2)^2/2 XQ) / b^4
Cos(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
\* (velocity across the field relative to the drift, times b^2)
Gyr(B, b, v, e) == Sub3(Sub3(Mul(b * b, v), Mul(Dot(v, B), B)), Cross(e, B))
Turn(x, v, B, b, e, k) ==
    LET w == Gyr(B, b, v, e)
        drift == Add(Mul(Dot(v, B), B), Cross(e, B))
        th == k * b
    IN [vn |-> Add(Mul(b, drift), Add(Mul(b * Cos(th), w), Mul(Sin(th), Cross(B, w)))),
        vp |-> Mul(-b * Dot(e, B), B),
        xn |-> Add(Mul(b * b * b * b, x), Add(Mul(b * Sin(th), w), Mul(1 - Cos(th), Cross(B, w)))),
        xp |-> Mul(b * b, drift),
        xq |-> Mul(-b * b * Dot(e, B), B)]
=============================================================================
