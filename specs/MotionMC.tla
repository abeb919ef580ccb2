------------------------------ MODULE MotionMC ------------------------------
(* Small exhaustive model: two macroparticles in fields of their own.          *)
EXTENDS Motion, FiniteSets, TLC
CONSTANTS Vs, Ts, Hs, Gs, Steps, Both
GsDef == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, -1, 0>>, <<2, 1, 0>>}
GsDef2 == {<<0, 0, 0>>, <<0, 1, 0>>}
V3 == {-1, 0, 2}
T4 == {-2, -1, 0, 1}
T3 == {-1, 0, 1}
VARIABLES p, f, hist, n
vars == <<p, f, hist, n>>
Start(v) == Particle(Zero, v)
Vec(S) == { <<a, b, c>> : a \in S, b \in S, c \in S }
Force == { [T |-> T, H |-> H, g |-> g] : T \in Vec(Ts), H \in Hs, g \in Gs }
Still == [T |-> <<0, 1, 0>>, H |-> 1, g |-> <<1, 0, 0>>]
Init == /\ n = 0
        /\ \E v \in Vec(Vs), a \in Force, b \in (IF Both THEN Force ELSE {Still}) : p = <<Start(v), Start(<<0, 1, 2>>)>> /\ f = <<a, b>>
        /\ hist = p
Next == /\ n < Steps /\ n' = n + 1
        /\ (n > 0 => p[1].d <= 3)
        /\ p' = [i \in {1, 2} |-> SubStep(p[i], f[i].T, f[i].H, f[i].g)]
        /\ hist' = p /\ UNCHANGED f
Spec == Init /\ [][Next]_vars
\* velocities before (a) and after (b) over the common denominator
Pair(i) == LET D == hist[i].d * p[i].d IN <<Mul(p[i].d, hist[i].v), Mul(hist[i].d, p[i].v), D, Mul(D, f[i].g), Sub3(Mul(hist[i].d, p[i].x), Mul(p[i].d, hist[i].x))>>
Each(P(_)) == n = 0 \/ \A i \in {1, 2} : P(i)
\* without a magnetic field: uniform acceleration
Straight == Each(LAMBDA i : LET r == Pair(i) IN f[i].T = Zero => r[2] = Add(r[1], Mul(2, r[4])))
\* the drift covers exactly one substep with the new velocity
Drift == Each(LAMBDA i : LET r == Pair(i) IN r[5] = r[2])
\* without an electric field: the energy is conserved
Energy == Each(LAMBDA i : LET r == Pair(i) IN f[i].g = Zero => Dot(r[1], r[1]) = Dot(r[2], r[2]))
\* the magnetic field does not act along itself
Along == Each(LAMBDA i : LET r == Pair(i) IN Dot(Sub3(r[2], r[1]), f[i].T) = 2 * Dot(r[4], f[i].T))
\* rotation of the right sense, by the angle 2 atan(|T|/H): tangent of half of it from |v+ - v|/|v+ + v|
Plus(i) == Sub3(Pair(i)[2], Pair(i)[4])
Minus(i) == Add(Pair(i)[1], Pair(i)[4])
Sense == Each(LAMBDA i : Dot(Sub3(Plus(i), Minus(i)), Cross(Minus(i), f[i].T)) >= 0)
Frequency == Each(LAMBDA i : LET T == f[i].T H == f[i].H a == Minus(i) b == Plus(i) dif == Sub3(b, a) sum == Add(a, b)
                                 cr == Cross(sum, T) IN H * H * Dot(dif, dif) = Dot(cr, cr) /\ Mul(H, dif) = cr)
\* reversed in time
Back == Each(LAMBDA i : LET r == SubStep([x |-> p[i].x, v |-> Neg(p[i].v), d |-> p[i].d], Neg(f[i].T), f[i].H, f[i].g)
                        IN Mul(hist[i].d, r.v) = Mul(-r.d, hist[i].v))
\* nothing depends on the other macroparticle
Alone == n = 0 \/ p[2] = SubSteps(Start(<<0, 1, 2>>), n, f[2].T, f[2].H, f[2].g)
\* two substeps of a drift are one twice as long
Covered == Each(LAMBDA i : (f[i].T = Zero /\ f[i].g = Zero) => p[i].x = Mul(n, p[i].v) /\ p[i].d = 1)

\* the exact motion: laws of Turn, and agreement with the leap-frog where that rotates by a quarter turn
B2 == { <<<<1, 0, 0>>, 1>>, <<<<0, 1, 0>>, 1>>, <<<<0, -1, 0>>, 1>>, <<<<0, 2, 0>>, 2>>, <<<<3, 4, 0>>, 5>>, <<<<-4, 3, 0>>, 5>> }
Vel(v, B, e, k) == Turn(Zero, v, B[1], B[2], e, k)
TurnLaws ==
    \A v \in Vec({-1, 0, 2}), B \in B2 : LET b == B[2] IN
      /\ \A k \in 0..4 : LET r == Vel(v, B, Zero, k) IN
           /\ Dot(r.vn, r.vn) = b * b * b * b * b * b * Dot(v, v)
           /\ Dot(r.vn, B[1]) = b * b * b * Dot(v, B[1]) /\ r.vp = Zero /\ r.xq = Zero
           /\ (k * b) % 4 = 0 => r.vn = Mul(b * b * b, v) /\ r.xn = Zero
           /\ k = 0 => r.vn = Mul(b * b * b, v) /\ r.xn = Zero
      /\ \A k \in 0..2, j \in 0..2 : b = 1 =>
           LET r == Vel(v, B, Zero, k) s == Turn(r.xn, r.vn, B[1], 1, Zero, j) t == Vel(v, B, Zero, k + j)
           IN s.vn = t.vn /\ s.xn = t.xn
      \* a quarter turn: the velocity is the one the leap-frog gives (charge negative, |T| = H)
      /\ b = 1 => LET r == Vel(v, B, Zero, 1) s == SubStep(Particle(Zero, v), Neg(B[1]), 1, Zero) IN s.d = 1 /\ s.v = r.vn
      \* crossed fields: at the drift velocity the motion is straight
      /\ \A e \in {<<1, 0, 0>>, <<0, 1, 0>>, <<2, -1, 0>>} : LET u == Cross(e, B[1]) IN
           \A k \in 0..3 : b = 1 => LET r == Turn(Zero, u, B[1], 1, e, k) IN r.vn = u /\ r.xn = Zero /\ r.xp = u
ASSUME TurnLaws
=============================================================================
