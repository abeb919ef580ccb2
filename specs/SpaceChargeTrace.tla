-------------------------- MODULE SpaceChargeTrace --------------------------
(* Recorded steps of real simulations.  dep: what each cloud should deposit    *)
(* (charge density and, with electromagnetic tracking, current density),       *)
(* rho: what the solver holds, own: what each cloud says about itself,         *)
(* ef: the fields, ref: fields of the densities in rho solved independently;   *)
(* integers in millionths of the largest value.                                *)
EXTENDS SpaceCharge, TraceUtil
VARIABLES k, l, rho, ef
Ev == Traces[k].ev
E == Ev[l]
Near(a, b, tol) == Abs(a - b) <= tol
RECURSIVE Sum(_, _)
Sum(d, j) == IF d = <<>> THEN 0 ELSE Head(d)[j] + Sum(Tail(d), j)
TInit == k \in 1..NTraces /\ l = 1 /\ Init({Traces[k].cfg}) /\ rho = <<>> /\ ef = <<>>
TStep == /\ E.op = "step"
         /\ Step(E.t, E.force, E.dep)
         /\ E.due = Due(E.t)
         /\ rho' = E.rho /\ ef' = E.ef
         /\ IF Done(E.t, E.force) THEN
              /\ TRUE = \A j \in 1..Len(E.rho) : Near(E.rho[j], Sum(E.dep, j), 3)
              /\ TRUE = \A c \in 1..conf.clouds : Len(E.own[c]) > 0 /\ \A j \in 1..Len(E.own[c]) : Near(E.own[c][j], E.dep[c][j], 3)
              /\ TRUE = \A j \in 1..Len(E.ef) : Near(E.ef[j], E.ref[j], 20)
              \* the energy the code reports is the one of these fields (independent quadrature, 5 percent)
              /\ Near(E.U[1], E.U[2], E.U[2] \div 20 + 3)
              \* the potentials of the previous recomputation are kept for their time derivative
              /\ TRUE = \A j \in 1..Len(E.old) : Near(E.old[j], IF ef = <<>> THEN 0 ELSE ef[10 + j], 3)
            ELSE /\ (rho # <<>> => E.rho = rho /\ E.ef = ef)
                 /\ (used = <<>> => \A j \in 1..Len(E.rho) : E.rho[j] = 0)
                 /\ (used = <<>> => \A j \in 1..Len(E.ef) : E.ef[j] = 0)
                 /\ TRUE = \A c \in 1..conf.clouds : IF used = <<>> THEN \A j \in 1..Len(E.own[c]) : E.own[c][j] = 0
                                                     ELSE \A j \in 1..Len(E.own[c]) : Near(E.own[c][j], used[c][j], 3)
\* the fields seen by the particles: E = - grad phi - dA/dt, B = curl A (residuals)
TEm == E.op = "em" /\ TRUE = (\A j \in 1..Len(E.res) : Near(E.res[j], 0, 20)) /\ UNCHANGED <<vars, rho, ef>>
\* several processes sharing the self-field: everybody holds the mean of the densities
TShared == /\ E.op = "shared"
           /\ TRUE = \A j \in 1..Len(E.rho) : Near((1 + Len(E.others)) * E.rho[j], E.mine[j] + Sum(E.others, j), 6)
           /\ TRUE = \A j \in 1..Len(E.ef) : Near(E.ef[j], E.ref[j], 20)
           /\ UNCHANGED <<vars, rho, ef>>
TNext == l <= Len(Ev) /\ (TStep \/ TEm \/ TShared) /\ l' = l + 1 /\ UNCHANGED k
Terminated == l > Len(Ev) /\ UNCHANGED <<vars, k, l, rho, ef>>
TSpec == TInit /\ [][TNext \/ Terminated]_<<vars, k, l, rho, ef>>
Marked == Mark(k, l)
Where == <<k, l>>
Accepted == Verdict
=============================================================================
