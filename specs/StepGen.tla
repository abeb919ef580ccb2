------------------------------ MODULE StepGen ------------------------------
(* Schedules of calls for the simulations of the real code: runs to an end     *)
(* time or to the end, steps by hand, and continuing from a saved state.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT N
VARIABLES f, times, plan, i
vars == <<f, times, plan, i>>
\* (depends on the state so that it is drawn anew every time)
R(n) == RandomElement(1..(n + 0 * i))
P(n) == R(n) = 1
Pick(s) == s[R(Len(s))]
SetOf(k) == { j \in 1..k : P(2) }
Track(em, unif, nc) == IF em THEN "BorisMultipole" ELSE IF ~unif THEN Pick(<<"Boris", "BorisMultipole">>)
                        ELSE IF nc > 1 THEN Pick(<<"Boris", "Boris", "BorisMultipole">>) ELSE Pick(<<"Boris", "BorisMultipole", "StrongBdip", "StrongBgen">>)
Feature(nc, unif, em, track) == LET st == track \in {"StrongBdip", "StrongBgen"}
           IN [nc |-> nc, nb |-> R(3), gas |-> SetOf(nc), photo |-> IF P(3) THEN SetOf(nc) ELSE {}, cross |-> nc > 1 /\ P(3),
               reinterp |-> (~st /\ P(3)), saver |-> ~P(6), async |-> IF P(4) THEN SetOf(nc) ELSE {}, tion |-> Pick(<<-1, 4, 1000>>),
               unif |-> unif, sub |-> Pick(<<1, 2, 3, 5>>), em |-> em, track |-> track, b |-> Pick(<<3, 4, 5, 20>>), dtref |-> IF unif THEN 1 ELSE Pick(<<1, 2, 6>>),
               kick |-> (~st /\ P(4)), force |-> P(5), small |-> P(4), auto |-> P(3)]
RECURSIVE Grow(_)
Grow(s) == IF Len(s) = N THEN s ELSE Grow(Append(s, s[Len(s)] + Pick(<<1, 1, 2, 5>>)))
Init == /\ f = [nc |-> 0] /\ times = <<>> /\ plan = <<>> /\ i = 0
Choose == /\ f.nc = 0 /\ (\E nc \in {R(3)}, unif \in {~P(3)}, em \in {P(6)} : \E tr \in {Track(em, unif, nc)} : f' = Feature(nc, unif, em, tr)) /\ times' = (IF f'.unif THEN [j \in 1..N |-> j - 1] ELSE Grow(<<0>>)) /\ UNCHANGED <<plan, i>>
Stop(te) == IF \E j \in 1..N : j >= i /\ j > 0 /\ times[j] >= te THEN CHOOSE j \in 1..N : j >= i /\ j > 0 /\ times[j] >= te /\ (\A k \in 1..N : (k >= i /\ k > 0 /\ times[k] >= te) => j <= k) ELSE N
Run == \E te \in {IF P(3) THEN -1 ELSE IF times = <<>> THEN 0 ELSE R(times[N] + 1) - 1} :
       /\ f.nc > 0 /\ Len(plan) < 8
       /\ plan' = Append(plan, [op |-> "run", tend |-> te, n |-> 0, kick |-> FALSE, skipc |-> FALSE, skipr |-> FALSE, cust |-> FALSE, force |-> FALSE, half |-> P(2)])
       /\ i' = IF te = -1 THEN N ELSE Stop(te)
       /\ UNCHANGED <<f, times>>
Man == /\ f.nc > 0 /\ Len(plan) < 8 /\ i < N /\ ~f.auto
       /\ \E n \in {R(IF N - i < 3 THEN N - i ELSE 3)}, k \in {f.kick /\ P(2)} :
          /\ plan' = Append(plan, [op |-> "man", tend |-> -1, n |-> n, kick |-> k, skipc |-> P(3), skipr |-> P(3),
                                   cust |-> k \/ (P(3) /\ f.track \in {"Boris", "BorisMultipole"}), force |-> P(4), half |-> FALSE])
          /\ i' = i + n
       /\ UNCHANGED <<f, times>>
\* go on from the state saved at this step
Reload == /\ f.nc > 0 /\ Len(plan) < 8 /\ i > 0 /\ i < N /\ f.saver /\ ~f.em /\ (f.auto \/ P(3))
          /\ (\A j \in 1..Len(plan) : plan[j].op # "reload")
          /\ plan' = Append(plan, [op |-> "reload", tend |-> times[i], n |-> i, kick |-> FALSE, skipc |-> FALSE, skipr |-> FALSE, cust |-> FALSE, force |-> FALSE, half |-> FALSE])
          /\ UNCHANGED <<f, times, i>>
Open == i < N \/ plan = <<>>
Next == Open /\ (Choose \/ Run \/ Man \/ Reload)
Spec == Init /\ [][Next]_vars
\* a finished schedule: everything has been run, or there is no room for more calls
Fits == \A j \in 1..Len(plan) : plan[j].op = "run" => plan[j].tend <= times[N]
Emit == ~(i = N /\ plan # <<>>) \/ PrintT("BEH " \o ToJson([f |-> f, times |-> times, plan |-> plan]))
=============================================================================
