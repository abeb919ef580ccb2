------------------------------ MODULE Geometry ------------------------------
(* Exact plane geometry on the integer lattice: polygonal chambers (a sequence *)
(* of vertices, counter-clockwise), elliptic chambers with semi-axes a, b.     *)
EXTENDS Integers, Sequences, FiniteSets
Cross(ux, uy, vx, vy) == ux * vy - uy * vx
Next1(P, i) == P[(i % Len(P)) + 1]
\* > 0: p is to the left of the line from a to b
Side(p, a, b) == Cross(b[1] - a[1], b[2] - a[2], p[1] - a[1], p[2] - a[2])
Between(v, a, b) == (a <= v /\ v <= b) \/ (b <= v /\ v <= a)
OnSegment(p, a, b) == Side(p, a, b) = 0 /\ Between(p[1], a[1], b[1]) /\ Between(p[2], a[2], b[2])
Boundary(p, P) == \E i \in 1..Len(P) : OnSegment(p, P[i], Next1(P, i))
\* the ray from p towards +x crosses the edge a-b
RayHits(p, a, b) == /\ (a[2] > p[2]) # (b[2] > p[2])
                    /\ IF b[2] > a[2] THEN Side(p, a, b) > 0 ELSE Side(p, a, b) < 0
Inside(p, P) == /\ ~Boundary(p, P)
                /\ Cardinality({i \in 1..Len(P) : RayHits(p, P[i], Next1(P, i))}) % 2 = 1
Outside(p, P) == ~Boundary(p, P) /\ ~Inside(p, P)
RECURSIVE AreaSum(_, _)
AreaSum(P, i) == IF i > Len(P) THEN 0 ELSE Cross(P[i][1], P[i][2], Next1(P, i)[1], Next1(P, i)[2]) + AreaSum(P, i + 1)
Area2(P) == AreaSum(P, 1)     \* twice the area, positive for counter-clockwise vertices
Turn(P, i) == LET a == P[i]  b == Next1(P, i)  c == Next1(P, (i % Len(P)) + 1) IN Cross(b[1] - a[1], b[2] - a[2], c[1] - b[1], c[2] - b[2])
StrictlyConvex(P) == (\A i \in 1..Len(P) : Turn(P, i) > 0) \/ (\A i \in 1..Len(P) : Turn(P, i) < 0)
Convex(P) == (\A i \in 1..Len(P) : Turn(P, i) >= 0) \/ (\A i \in 1..Len(P) : Turn(P, i) <= 0)
NoZeroEdge(P) == \A i \in 1..Len(P) : P[i] # Next1(P, i)
\* Crossing of the path p -> q with edge i: <<found, numerator, denominator>> of the fraction of the path, denominator > 0
Hit(p, q, P, i) ==
    LET a == P[i]  b == Next1(P, i)
        dx == q[1] - p[1]  dy == q[2] - p[2]
        ex == b[1] - a[1]  ey == b[2] - a[2]
        den == Cross(dx, dy, ex, ey)
        s == IF den < 0 THEN -1 ELSE 1
        n == s * Cross(a[1] - p[1], a[2] - p[2], ex, ey)
        u == s * Cross(a[1] - p[1], a[2] - p[2], dx, dy)
    IN IF den = 0 THEN [ok |-> FALSE, n |-> 0, d |-> 1, i |-> i]
       ELSE [ok |-> n >= 0 /\ n <= s * den /\ u >= 0 /\ u <= s * den, n |-> n, d |-> s * den, i |-> i]
Hits(p, q, P) == {h \in {Hit(p, q, P, i) : i \in 1..Len(P)} : h.ok}
Earlier(h, g) == h.n * g.d <= g.n * h.d
\* the crossings of the path with the wall that come first (several at a vertex)
First(p, q, P) == LET H == Hits(p, q, P) IN {h \in H : \A g \in H : Earlier(h, g)}
\* ellipses
EInside(p, a, b) == (p[1] * b) * (p[1] * b) + (p[2] * a) * (p[2] * a) < (a * b) * (a * b)
EBoundary(p, a, b) == (p[1] * b) * (p[1] * b) + (p[2] * a) * (p[2] * a) = (a * b) * (a * b)
\* the axis-parallel ellipse with semi-axes cx, cy (in units of 1/64) lies inside the convex or star-shaped polygon
Inscribed(cx, cy, P) == \A i \in 1..Len(P) :
    LET a == P[i]  b == Next1(P, i)
        ex == b[1] - a[1]  ey == b[2] - a[2]
        d == 64 * Cross(a[1], a[2], b[1], b[2])
    IN (cx * ey) * (cx * ey) + (cy * ex) * (cy * ex) <= d * d
\* the points of Q lie on the wall of P
OnWall(Q, P) == \A j \in 1..Len(Q) : Boundary(Q[j], P)
=============================================================================
