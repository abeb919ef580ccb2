-------------------------------- MODULE CIC --------------------------------
(* Cloud-in-cell deposition, gathering and histograms (compute_rho.f,          *)
(* interp_field_for.f, compute_hist.f, update_seg_impact.f) on a lattice: a     *)
(* grid of N[1] x N[2] nodes, positions in Q-ths of a cell counted from the     *)
(* first node, integer weights; results in units of 1/Q (1-D) and 1/Q^2 (2-D).  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Q
\* share of node n (from 0) of a particle at X on an axis of N nodes, within cell i
Share(X, n) == LET i == X \div Q  h == X % Q IN IF n = i THEN Q - h ELSE IF n = i + 1 THEN h ELSE 0
In1(X, N) == X >= 0 /\ X < Q * (N - 1)
On1(X, N) == X = 0 \/ X = Q * (N - 1)
In(p, N) == In1(p[1], N[1]) /\ In1(p[2], N[2])
\* on the outer line of the grid: counts or not (left to rounding)
Edge(p, N) == /\ p[1] >= 0 /\ p[1] <= Q * (N[1] - 1) /\ p[2] >= 0 /\ p[2] <= Q * (N[2] - 1)
              /\ On1(p[1], N[1]) \/ On1(p[2], N[2])
W(p, n, m) == Share(p[1], n) * Share(p[2], m)
RECURSIVE Sum(_, _)
Sum(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + Sum(F, n - 1)
\* density at node (n, m) of those particles p of ps with Sel(p)
Rho(ps, Sel(_), n, m) == Sum(LAMBDA j : IF Sel(ps[j]) THEN ps[j][3] * W(ps[j], n, m) ELSE 0, Len(ps))
\* field at p of the node values f (f[n+1][m+1])
Gather(p, f) == LET i == p[1] \div Q  j == p[2] \div Q
                    V(n, m) == IF n < Len(f) /\ m < Len(f[1]) THEN f[n + 1][m + 1] * W(p, n, m) ELSE 0
                IN V(i, j) + V(i + 1, j) + V(i, j + 1) + V(i + 1, j + 1)
\* 1-D histogram: beyond the ends everything goes to the last, below to the first entry
HShare(X, n, N) == IF X >= Q * (N - 1) THEN IF n = N - 1 THEN Q ELSE 0
                   ELSE IF X < 0 THEN IF n = 0 THEN Q ELSE 0 ELSE Share(X, n)
Hist(ps, n, N) == Sum(LAMBDA j : ps[j][2] * HShare(ps[j][1], n, N), Len(ps))
\* counts by index
Seg(ps, n, N) == Sum(LAMBDA j : IF ps[j][1] = n THEN ps[j][2] ELSE 0, Len(ps))
=============================================================================
