------------------------------ MODULE CICTrace -----------------------------
(* Recorded calls of the real kernels.  off: the largest deviation of a result *)
(* from a whole number of units, in millionths.                                *)
EXTENDS CIC, TraceUtil
VARIABLES k, l
Ev == Traces[k].ev
E == Ev[l]
Exactly == E.off <= 100 /\ E.inputs
Strict(p) == In(p, E.N) /\ ~Edge(p, E.N)
Loose(p) == In(p, E.N) \/ Edge(p, E.N)
\* particles on the outer line count or do not (each on its own): between both, exact when there is none
Lo(a, b) == Min2(a, b)
EdgeSum(n, m, s) == Sum(LAMBDA j : IF Edge(E.ps[j], E.N) /\ E.ps[j][3] * s > 0 THEN E.ps[j][3] * W(E.ps[j], n, m) ELSE 0, Len(E.ps))
TRho == /\ E.op = "rho" /\ Exactly
        /\ TRUE = \A n \in 0..(E.N[1] - 1), m \in 0..(E.N[2] - 1) :
             LET d == E.rho[n + 1][m + 1] - Rho(E.ps, Strict, n, m) IN d >= EdgeSum(n, m, -1) /\ d <= EdgeSum(n, m, 1)
        /\ (~E.fuzzy => TRUE = \A n \in 0..(E.N[1] - 1), m \in 0..(E.N[2] - 1) : \* exact arithmetic: the first line belongs to the grid
              LET In0(p) == In(p, E.N) IN (\A j \in 1..Len(E.ps) : In0(E.ps[j]) \/ ~Edge(E.ps[j], E.N)) => E.rho[n + 1][m + 1] = Rho(E.ps, In0, n, m))
TGather == /\ E.op = "gather" /\ Exactly
           /\ TRUE = \A j \in 1..Len(E.ps) : LET p == E.ps[j]  ok == E.fx[j] = Gather(p, E.ex) /\ E.fy[j] = Gather(p, E.ey)  z == E.fx[j] = 0 /\ E.fy[j] = 0 IN
                IF Edge(p, E.N) THEN ok \/ z ELSE IF In(p, E.N) THEN ok ELSE z
THist == E.op = "hist" /\ Exactly /\ TRUE = \A n \in 0..(E.N[1] - 1) : E.hist[n + 1] = Q * E.pre[n + 1] + Hist(E.ps, n, E.N[1])
TSeg == E.op = "seg" /\ Exactly /\ TRUE = \A n \in 0..(E.N[1] - 1) : E.hist[n + 1] = E.pre[n + 1] + Seg(E.ps, n, E.N[1])
TSum == E.op = "sum" /\ Exactly /\ E.sum = Sum(LAMBDA j : E.ps[j][1], Len(E.ps))
TInit == k \in 1..NTraces /\ l = 1
TNext == l <= Len(Ev) /\ (TRho \/ TGather \/ THist \/ TSeg \/ TSum) /\ l' = l + 1 /\ UNCHANGED k
Terminated == l > Len(Ev) /\ UNCHANGED <<k, l>>
TSpec == TInit /\ [][TNext \/ Terminated]_<<k, l>>
Marked == Mark(k, l)
Where == <<k, l>>
Accepted == Verdict
=============================================================================
