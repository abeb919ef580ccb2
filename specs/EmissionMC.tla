----------------------------- MODULE EmissionMC -----------------------------
(* The emission models over a grid of surfaces, energies and angles, and the    *)
(* charge of one insulating segment under impacts and leakage.                  *)
EXTENDS Emission
LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
CONSTANTS Full
VARIABLES C, e, ct, q, n
ClipQ(x) == IF x < 0 THEN 0 ELSE IF x > ONE THEN ONE ELSE x
Base == [model |-> "ecloud", del_max |-> 17000, Emax |-> 330, R0 |-> 7000, E0 |-> 150, s |-> 13500, cds |-> TRUE, ces |-> TRUE, EQ |-> 30, Eth |-> 350, mu |-> 16636, sigma |-> 10828,
         noinc |-> 0, thr |-> 124, tt |-> <<6000, 0, 13000, 9000>>, te |-> <<8000, 3000, 0, 500>>, e0 |-> 0, de |-> 40, kt |-> 3000, gt |-> 5, ke |-> 800, ge |-> 0 - 2,
         p1EInf |-> 500, p1Ehat |-> 4960, eEHat |-> 0, w |-> 609, p |-> 10000, e1 |-> 2600, e2 |-> 20000, sigE |-> 20, p1RInf |-> 2000, eR |-> 41, r |-> 10400, q |-> 5000, r1 |-> 2600, r2 |-> 20000,
         dTS |-> 18848, t1 |-> 6600, t2 |-> 8000, t3 |-> 7000, t4 |-> 10000, M |-> 10, cmin |-> 0, cminr |-> 0, fpecl |-> FALSE, fpene |-> FALSE, noredif |-> FALSE,
         pn |-> <<25000, 33000, 25000, 25000, 28000, 13000, 15000, 15000, 15000, 15000>>, en |-> <<15000, 17500, 10000, 37500, 85000, 115000, 25000, 30000, 25000, 30000>>]
Models == {"ecloud", "acc", "cos", "flat", "file", "charging", "fp"}
Surfaces == {[Base EXCEPT !.model = m, !.R0 = R, !.cds = f, !.ces = g, !.noinc = i, !.fpecl = f /\ m = "fp", !.fpene = g /\ m = "fp", !.noredif = (i = 2)] :
             m \in Models, R \in IF Full THEN {1000, 7000, 9500} ELSE {7000}, f \in BOOLEAN, g \in IF Full THEN BOOLEAN ELSE {TRUE}, i \in {0, 2}}
Es == IF Full THEN {3, 20, 100, 290, 402, 1003, 3004, 8001, 20002} ELSE {3, 100, 402, 3004}
Cts == IF Full THEN {300, 2500, 6000, 10000} ELSE {600, 10000}
Xs == <<2, 5, 20, 60, 150, 290, 400, 900>>
Init == C = Base /\ e \in Es /\ ct \in Cts /\ q = 0 /\ n = 0 - 1
Choose == n = 0 - 1 /\ C' \in Surfaces /\ n' = 0 /\ UNCHANGED <<e, ct, q>>
\* the segment collects what impacts bring and gives what they emit; Qmax = 40 impacts
Impact == /\ C.model = "charging" /\ n \in 0..11
          /\ LET y == YTrue(C, e, ct, ClipQ(q)) IN q' = q + ((y - ONE) * 4) \div 40
          /\ n' = n + 1 /\ UNCHANGED <<C, e, ct>>
Leak == C.model = "charging" /\ n \in 0..11 /\ n % 3 = 1 /\ q' = Mul(q, Exp(-5000)) /\ n' = n + 1 /\ UNCHANGED <<C, e, ct>>
Next == Choose \/ Impact \/ Leak
Spec == Init /\ [][Next]_<<C, e, ct, q, n>>

YieldsOK == C.model # "fp" => /\ Trues(C, e, ct) >= 0 /\ Reflected(C, e, ct) >= 0
                              /\ PElast(C, e, ct) \in 0..ONE
                              /\ C.model = "acc" => Reflected(C, e, ct) <= ONE
\* what is emitted on the average is the yield, whatever the split into kinds of events
Balance == C.model \notin {"fp", "charging"} => LET p == PElast(C, e, ct) IN
             Abs(Mul(p, YElast(C, e, ct, 0)) + Mul(ONE - p, YTrue(C, e, ct, 0)) - Delta(C, e, ct)) <= 5 + Delta(C, e, ct) \div 500
\* grazing impacts emit at least as much as normal ones (except near thresholds shifted in energy)
Grazing == C.model \in {"ecloud", "acc", "cos"} /\ ~C.ces => Delta(C, e, ct) >= Delta(C, e, ONE) - 3
PartsOK == \A w \in 1..6 : \A th \in {10000, 15000, 70000} : LET k == Parts(w * 11000, th) IN k * th >= w * 11000 /\ (k > 1 => (k - 1) * th < w * 11000)
NumbersOK == C.model = "fp" => LET d == FP(C, e, ct) IN
               d.e + d.r < 9500 /\ Lambda(d) < 80000 =>
               LET RECURSIVE S(_)  S(j) == IF j < 0 THEN 0 ELSE PNumber(C, d, j) + S(j - 1) IN Abs(S(C.M) - ONE) <= 40
\* distribution functions increase from 0 to 1 at the largest energy
Monotone(F(_), top) == /\ \A j \in 1..Len(Xs) - 1 : F(Xs[j]) <= F(Xs[j + 1]) + 2
                       /\ F(top) >= ONE - 2 /\ \A j \in 1..Len(Xs) : F(Xs[j]) \in (0-2)..(ONE + 2)
CdfOK == (n = 0 /\ e >= 20) =>
           /\ C.model = "fp" => /\ Monotone(LAMBDA x : CdfBack(C, e, x), e) /\ Monotone(LAMBDA x : CdfRedif(C, e, x), e)
                                /\ \A j \in {1, 2, 4} : Monotone(LAMBDA x : CdfTrue(C, j, e, x), IF C.fpene THEN C.Eth ELSE e)
           /\ C.model # "fp" => Monotone(LAMBDA x : CdfLogn(C, e, x), C.Eth)
\* charging saturates: a segment that emits more than it receives never charges beyond the point where it emits as much
ChargeOK == /\ q <= ONE + ONE \div 5
            /\ C.model = "charging" /\ q >= ONE => YTrue(C, e, ct, ClipQ(q)) <= ONE
=============================================================================
