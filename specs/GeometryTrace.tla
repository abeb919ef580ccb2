---------------------------- MODULE GeometryTrace ---------------------------
(* Answers of the real chambers to questions on the lattice.                   *)
EXTENDS Geometry, TraceUtil
VARIABLES k, l
T == Traces[k]
Ev == T.ev
E == Ev[l]
C == T.cfg
P == IF C.kind = "rect" THEN T.P ELSE C.P
Fine == 50
Ell == C.kind = "ellip"
Valid == Ell \/ (NoZeroEdge(C.P) /\ Area2(C.P) > 0 /\ (C.convex => Convex(C.P)))
\* (a vertex on a straight wall may look concave: rounding)
Flat == ~Ell /\ Convex(C.P) /\ ~StrictlyConvex(C.P)
TBuild == E.op = "build" /\ (E.refused = ~Valid \/ (Flat /\ Valid /\ C.convex))
MaxAbs(j) == CHOOSE m \in {Abs(P[n][j]) : n \in 1..Len(P)} : \A n \in 1..Len(P) : Abs(P[n][j]) <= m
TShape == /\ E.op = "shape"
          /\ IF Ell THEN E.xa = C.a /\ E.ya = C.b /\ Abs(10000 * E.area2 - 62832 * C.a * C.b) <= 20000
             ELSE /\ E.xa = MaxAbs(1) /\ E.ya = MaxAbs(2) /\ E.area2 = Area2(P) /\ E.nvert = Len(P) /\ (E.nconvex = Convex(P) \/ Flat)
                  /\ C.kind = "rect" => ({P[n] : n \in 1..4} = {C.P[n] : n \in 1..4} /\ Len(P) = 4 /\ Area2(P) > 0)
\* a point on the wall itself may count as either
PointOK(w, out) == IF Ell THEN IF EBoundary(w, C.a, C.b) THEN TRUE ELSE out = ~EInside(w, C.a, C.b)
                   ELSE IF Boundary(w, P) THEN TRUE ELSE out = ~Inside(w, P)
TPoints == E.op = "points" /\ TRUE = \A j \in 1..Len(E.pts) : PointOK(E.pts[j], E.out[j])
\* fractions in 1e-4; the point is up to 2% of the path before the crossing
FracOK(f, h) == f * h.d <= 10000 * h.n + 2 * h.d /\ f * h.d >= 9800 * h.n - 2 * h.d
UnitVec(n) == Abs(n[1] * n[1] + n[2] * n[2] - 1000000) <= 4000
NormalOK(n, a, b) == LET ex == b[1] - a[1]  ey == b[2] - a[2] IN
                     /\ UnitVec(n) /\ Abs(n[1] * ex + n[2] * ey) <= 2 * (Abs(ex) + Abs(ey)) /\ Cross(ex, ey, n[1], n[2]) > 0
AtVertex(h, p, q) == Cardinality({g \in Hits(p, q, P) : g.n * h.d = h.n * g.d}) > 1
\* a contact with a vertex from inside need not count as crossing
May(p, q) == LET H == Hits(p, q, P) IN {h \in H : \A g \in H : Earlier(h, g) \/ AtVertex(g, p, q)}
PathPoly(r) == \E h \in May(r.p, r.q) : FracOK(r.f, h) /\ NormalOK(r.n, P[h.i], Next1(P, h.i)) /\ r.seg = h.i - 1
G(x, y) == (x * C.b) * (x * C.b) + (y * C.a) * (y * C.a)
W2 == (Fine * C.a * C.b) * (Fine * C.a * C.b)
\* recorded positions are rounded to whole units
Half(o) == Abs(o[1]) * C.b * C.b + Abs(o[2]) * C.a * C.a + C.a * C.a + C.b * C.b
NotBeyond(o) == G(o[1], o[2]) - Half(o) < W2 + (W2 \div 200)
BeyondSoon(o) == G(o[1], o[2]) + Half(o) >= W2 - (W2 \div 50)
PathEll(r) == LET gx == r.o[1] * C.b * C.b   gy == r.o[2] * C.a * C.a
                  m == Max2(Abs(gx), Abs(gy)) IN
              /\ NotBeyond(r.o)
              /\ BeyondSoon(r.o3)      \* after 3% more of the path it is outside (an impact in the first 1% of the path counts as one at its start)
              /\ UnitVec(r.n) /\ Abs(Cross(r.n[1], r.n[2], gx, gy)) <= 20 * m + 2000 * C.a * C.a
              /\ r.n[1] * gx + r.n[2] * gy < 0
              /\ r.z < 0 \/ Abs(r.z - r.f) <= 2
Strictly(q) == IF Ell THEN ~EInside(q, C.a, C.b) /\ ~EBoundary(q, C.a, C.b) ELSE Outside(q, P)
PathOK(r) == /\ r.out \/ ~Strictly(r.q)
             /\ r.out => r.off <= 20 /\ ~r.still /\ r.alone /\ (IF Ell THEN PathEll(r) ELSE PathPoly(r))
TPaths == E.op = "paths" /\ TRUE = \A j \in 1..Len(E.rs) : PathOK(E.rs[j])
TWall == E.op = "wall" /\ TRUE = \A j \in 1..Len(E.qs) : E.yes[j] = OnWall(E.qs[j], P)
TSame == E.op = "same" /\ TRUE = \A j \in 1..Len(E.qs) : E.yes[j] = (OnWall(E.qs[j], P) /\ OnWall(P, E.qs[j]))
TInit == k \in 1..NTraces /\ l = 1
TNext == l <= Len(Ev) /\ (TBuild \/ TShape \/ TPoints \/ TPaths \/ TWall \/ TSame) /\ l' = l + 1 /\ UNCHANGED k
Terminated == l > Len(Ev) /\ UNCHANGED <<k, l>>
TSpec == TInit /\ [][TNext \/ Terminated]_<<k, l>>
Marked == Mark(k, l)
Where == <<k, l>>
Accepted == Verdict
=============================================================================
