----------------------------- MODULE GeometryMC -----------------------------
(* The geometry is coherent: star-shaped polygons around the origin, every     *)
(* lattice point and every path from inside to outside.                        *)
EXTENDS Geometry, TLC
CONSTANTS R, W, N
VARIABLES poly, p, q
vars == <<poly, p, q>>
Dirs == << <<1, 0>>, <<2, 1>>, <<1, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>, <<-1, -1>>, <<0, -1>>, <<1, -1>> >>
\* every direction absent (0) or at a radius
Subsets == [1..9 -> 0..R]
RECURSIVE Take(_, _)
Take(f, i) == IF i > 9 THEN <<>> ELSE (IF f[i] = 0 THEN <<>> ELSE << <<f[i] * Dirs[i][1], f[i] * Dirs[i][2]>> >>) \o Take(f, i + 1)
\* the origin is inside
Star(P) == Len(P) >= 3 /\ \A i \in 1..Len(P) : Cross(P[i][1], P[i][2], Next1(P, i)[1], Next1(P, i)[2]) > 0
Lattice == (-W..W) \X (-W..W)
Init == /\ poly \in {P \in {Take(f, 1) : f \in Subsets} : Star(P) /\ Len(P) <= N}
        /\ p \in Lattice /\ Inside(p, poly) /\ q \in {<<0, 0>>}
Next == q' \in {w \in Lattice : ~Inside(w, poly)} /\ q = <<0, 0>> /\ UNCHANGED <<poly, p>>
Spec == Init /\ [][Next]_vars
HalfPlanes(w, P) == \A i \in 1..Len(P) : Side(w, P[i], Next1(P, i)) > 0
\* for convex polygons inside means to the left of every edge
ConvexInside == Convex(poly) => (Inside(p, poly) <=> HalfPlanes(p, poly)) /\ (Inside(q, poly) <=> HalfPlanes(q, poly))
OriginInside == Inside(<<0, 0>>, poly) /\ Area2(poly) > 0 /\ ~(Convex(poly) /\ \E i \in 1..Len(poly) : Turn(poly, i) < 0)
\* scaled so that the crossing becomes a lattice point: it is on the wall, on exactly the edges found, and all points before it are inside
Crossing ==
    q = <<0, 0>> \/
    LET F == First(p, q, poly)
        h == CHOOSE h \in F : TRUE
        S(w, m) == <<w[1] * m, w[2] * m>>
        Sc(m) == [i \in 1..Len(poly) |-> S(poly[i], m)]
        At(n, d) == <<(d - n) * p[1] + n * q[1], (d - n) * p[2] + n * q[2]>>
    IN /\ F # {}
       /\ Boundary(At(h.n, h.d), Sc(h.d)) /\ h.n > 0 /\ h.n <= h.d
       /\ {g.i : g \in F} \subseteq {i \in 1..Len(poly) : OnSegment(At(h.n, h.d), S(poly[i], h.d), S(Next1(poly, i), h.d))}
       /\ \A i \in {j \in 1..Len(poly) : OnSegment(At(h.n, h.d), S(poly[j], h.d), S(Next1(poly, j), h.d))} :
              (\E g \in F : g.i = i) \/ Cross(q[1] - p[1], q[2] - p[2], Next1(poly, i)[1] - poly[i][1], Next1(poly, i)[2] - poly[i][2]) = 0
       /\ \A m \in 1..3 : Inside(At(m * h.n, 4 * h.d), Sc(4 * h.d))
\* a path that ends outside comes from inside through the edge found, unless it leaves at a vertex
Inwards == q = <<0, 0>> \/ \A h \in First(p, q, poly) : Cardinality(First(p, q, poly)) > 1 \/ h.n = h.d \/ Boundary(q, poly) \/ Side(p, poly[h.i], Next1(poly, h.i)) > 0
=============================================================================
