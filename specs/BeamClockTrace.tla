--------------------------- MODULE BeamClockTrace ---------------------------
(* Recorded walks of the real beam_and_timing object.                          *)
EXTENDS BeamClock, TraceUtil
VARIABLES k, l
Ev == Traces[k].ev
E == Ev[l]
TInit == /\ k \in 1..NTraces /\ l = 1 /\ i = 0 /\ seen = {}
         /\ out = [tt |-> -1, dt |-> 0, lam |-> 0, pass |-> -1, new |-> FALSE]
         /\ cfg = Traces[k].cfg

TSetup == E.op = "setup" /\ [nt |-> E.nt, unif |-> E.unif, dt |-> E.dt, npass |-> E.npass] = Setup /\ E.ended = Ended /\ UNCHANGED vars
TStep == E.op = "step" /\ Step /\ out' = [tt |-> E.tt, dt |-> E.dt, lam |-> E.lam, pass |-> E.pass, new |-> E.new] /\ E.ended = Ended'
TDone == E.op = "done" /\ Ended /\ UNCHANGED vars

(* A bunched beam.  The axis covers the train plus t_end; bunch number b (from 0) carries ppb[b], sits at t_offs + b*b_spac and has rms *)
(* length sigma[b]; nothing is between the bunches but the coasting beam.                                              *)
TTrain == /\ E.op = "train" /\ UNCHANGED vars
          /\ E.t0 = 0 /\ E.uniform /\ E.last >= E.n * E.bspac + E.tend /\ E.last <= E.n * E.bspac + E.tend + 3
          /\ E.npass = CeilDiv(E.last, E.bspac)
          /\ Len(E.win) = E.n
          /\ \A b \in 1..E.n : LET w == E.win[b] q == E.fact * E.ppb[b]
                                   cq == E.coast * w.n
                               IN /\ Abs(w.q - (q + cq)) <= 1
                                  /\ (E.coast = 0 => Abs(w.m1) <= 1 + q \div 1000)
                                  /\ (E.coast = 0 => Abs(w.m2 - q * E.sig[b] * E.sig[b]) <= 1 + (q * E.sig[b]) \div 100)
          /\ E.gapmax = E.coast /\ E.gapmin = E.coast

\* inputs that make no sense are refused, the others accepted
TRefuse == E.op = "accept" /\ E.accepted = (E.why = "valid") /\ UNCHANGED vars

\* the beam field on the electrons: proportional to the line density and charge, absent below the threshold
TField == /\ E.op = "field" /\ UNCHANGED vars
          /\ LET on == E.lam > E.th
             IN /\ (~on \/ E.pts = <<>>) => E.zero
                /\ on => \A j \in 1..Len(E.pts) : LET p == E.pts[j] IN
                        /\ p.ex = E.charge * E.lam * (E.ax * p.x + E.ay * p.y + E.axy * p.x * p.y)
                        /\ p.ey = E.charge * E.lam * (E.bx * p.x + E.by * p.y)
\* Gauss: the flux of the computed beam field through a box of m/2 by n/2 standard deviations around the (unit) beam is the charge in it,
\* in thousandths; the field is curl free, odd around the beam and perpendicular to the wall
Inside == <<383, 683, 866, 954, 988, 997>>      \* share of a Gaussian within m/2 standard deviations
Share(m) == IF m > 6 THEN 1000 ELSE Inside[m]
TGauss == /\ E.op = "gauss" /\ UNCHANGED vars
          /\ Abs(E.flux - (Share(E.m) * Share(E.n)) \div 1000) <= 45 /\ Abs(E.circ) <= 10
TOdd == E.op = "odd" /\ (\A j \in 1..2 : Abs(E.d[j]) <= (IF E.centred THEN 5 ELSE 250)) /\ UNCHANGED vars
TDipole == /\ E.op = "wall" /\ E.tang <= 60 /\ UNCHANGED vars

TNext == /\ l <= Len(Ev) /\ (TSetup \/ TStep \/ TDone \/ TTrain \/ TRefuse \/ TField \/ TGauss \/ TOdd \/ TDipole)
         /\ l' = l + 1 /\ UNCHANGED k
Terminated == l > Len(Ev) /\ UNCHANGED <<vars, k, l>>
TSpec == TInit /\ [][TNext \/ Terminated]_<<vars, k, l>>
Marked == Mark(k, l)
TInv == i > 0 => InsidePass
Accepted == Verdict
=============================================================================
