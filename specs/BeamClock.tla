------------------------------ MODULE BeamClock ------------------------------
(* The time axis of a beam (beam_and_timing.py): the simulation walks once    *)
(* over a given axis t[1..Nt] and knows at every step the time, the length of *)
(* the step, the beam density, the number of the bunch passage and whether    *)
(* this step is the first one of that passage.  Times are integer ticks.      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

VARIABLES cfg,    \* [t, lam, B, fact, coast, DtIn]: axis, profile, bunch spacing, scale factor, coasting density, input step
          i,      \* position on the axis (0: not started)
          seen,   \* passages that have been announced
          out     \* what the user sees after the last step
vars == <<cfg, i, seen, out>>

Nt == Len(cfg.t)
Gaps == [k \in 1..Nt - 1 |-> cfg.t[k + 1] - cfg.t[k]]
SumSeq(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
Uniform == LET g == Gaps S == SumSeq(g) n == Len(g)
           IN (Max({ g[k] : k \in 1..n }) * n - S) * 10000 <= S
CeilDiv(a, b) == (a + b - 1) \div b

\* what the constructor announces
Setup == [nt |-> Nt, unif |-> Uniform, dt |-> IF Uniform THEN cfg.t[2] - cfg.t[1] ELSE cfg.DtIn,
          npass |-> CeilDiv(cfg.t[Nt], cfg.B)]

Pass(k) == cfg.t[k] \div cfg.B
Ended == i + 1 >= Nt           \* the last point only closes the last step

Step == /\ ~Ended
        /\ i' = i + 1
        /\ out' = [tt |-> cfg.t[i + 1], dt |-> cfg.t[i + 2] - cfg.t[i + 1],
                   lam |-> cfg.fact * cfg.lam[i + 1] + cfg.coast,
                   pass |-> Pass(i + 1), new |-> \A p \in seen : p < Pass(i + 1)]
        /\ seen' = seen \cup {Pass(i + 1)}
        /\ UNCHANGED cfg
Init(C) == cfg \in C /\ i = 0 /\ seen = {} /\ out = [tt |-> -1, dt |-> 0, lam |-> 0, pass |-> -1, new |-> FALSE]

Contiguous == [][i > 0 /\ i' = i + 1 => out'.tt = out.tt + out.dt]_vars
NewOnce == [][i' = i + 1 => (out'.new <=> out'.pass \notin seen)]_vars
InsidePass == i > 0 => out.pass * cfg.B <= out.tt /\ out.tt < (out.pass + 1) * cfg.B
AllVisited == (Ended /\ i > 0) => out.tt + out.dt = cfg.t[Nt]
PassBound == i > 0 => out.pass <= Setup.npass
=============================================================================
