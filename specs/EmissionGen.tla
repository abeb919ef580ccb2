---------------------------- MODULE EmissionGen -----------------------------
(* Random surfaces and batches of impacts.                                     *)
EXTENDS Emission, TLC, Json
CONSTANT Batches
VARIABLES c, i
vars == <<c, i>>
R(n) == RandomElement(1..(n + 0 * i))
P1(n) == R(n) = 1
Num(a, b) == R(b - a + 1) + a - 1
Pick(s) == s[R(Len(s))]
Models == <<"ecloud", "ecloud", "acc", "nunif", "charging", "charging", "cos", "flat", "file", "file", "absorber", "fp", "fp", "fp", "fp">>
Es == <<3, 8, 10, 15, 20, 35, 50, 80, 120, 200, 290, 310, 402, 604, 1003, 1505, 2003, 2506, 3004, 4507, 8001>>
Cs == <<10000, 10000, 9000, 7500, 5000, 3000, 1500, 600>>
Table == LET n == Num(4, 9) IN [t |-> [j \in 1..n |-> IF P1(6) THEN 0 ELSE Num(1, 20000)], e |-> [j \in 1..n |-> IF P1(4) THEN 0 ELSE Num(1, 8000)]]
Seg(m) == [dm |-> IF P1(2) THEN -1 ELSE Num(8000, 24000), R0 |-> IF P1(2) THEN -1 ELSE Num(1000, 9000), Em |-> IF P1(2) THEN -1 ELSE Num(120, 450),
           chg |-> m = "charging" /\ ~P1(4), Qmax |-> Num(3, 60) * 1000, tau |-> Pick(<<-1, 0, 100, 1000, 5000>>)]
Gam == Pick(<< [pn |-> <<25000, 33000, 25000, 25000, 28000, 13000, 15000, 15000, 15000, 15000>>, en |-> <<15000, 17500, 10000, 37500, 85000, 115000, 25000, 30000, 25000, 30000>>],
               [pn |-> <<16000, 20000, 18000, 47000, 18000, 24000, 18000, 18000, 23000, 18000>>, en |-> <<39000, 62000, 130000, 88000, 62000, 22500, 92000, 53000, 178000, 100000>>] >>)
Low12 == Pick(<<12000, 13500, 13500, 13500, 16000, 18000>>)
Surface(m, tb, gm, ex) ==
  [model |-> m, del_max |-> Num(8000, 26000), Emax |-> Num(120, 500), R0 |-> Num(1000, 9500), giveE0 |-> ex.E0, E0 |-> IF ex.E0 THEN Num(20, 300) ELSE IF m = "cos" THEN 30 ELSE 150,
   s |-> IF m = "fp" THEN 15400 ELSE IF m = "ecloud" THEN Low12 ELSE 13500,
   cds |-> m \notin {"ecloud", "file", "fp"} \/ ~P1(3), ces |-> m \notin {"ecloud", "file", "fp"} \/ ~P1(3),
   Eth |-> Pick(<<150, 350, 350, 500>>), mu |-> Pick(<<16636, 16636, 12000, 20000>>), sigma |-> Pick(<<10828, 10828, 7000>>), noinc |-> ex.noinc,
   thr |-> Pick(<<12, 32, 124>>), angle |-> Pick(<<"cosine_3D", "cosine_3D", "cosine_2D", "normal_emission">>), xs |-> <<5, 10, 20, 30, 50, 80, 120, 200, 290, 400, 900, 1900>>,
   tt |-> tb.t, te |-> tb.e, e0 |-> 0, de |-> Num(5, 60), kt |-> Num(0, 9000), gt |-> Num(0, 20), ke |-> Num(0, 3000), ge |-> Num(0, 5) - 3, path |-> Pick(<<"rel", "stem", "abs", "home">>),
   chamb |-> IF m \in {"nunif", "charging"} THEN "polyg" ELSE Pick(<<"polyg", "rect">>), segs |-> [j \in 1..4 |-> Seg(m)], EQ |-> Num(5, 60),
   clouds |-> ex.clouds, cloud |-> IF ex.clouds = 2 THEN Num(0, 1) ELSE 0, th |-> Pick(<<10000, 10000, 15000, 20000, 33000, 70000>>), cap |-> 250000,
   \* Furman-Pivi
   p1EInf |-> Num(100, 1500), p1Ehat |-> Num(2000, 5500), eEHat |-> Pick(<<0, 0, 40>>), w |-> Pick(<<609, 200, 1000>>), p |-> Pick(<<10000, 9000, 15000>>), e1 |-> Num(0, 3000), e2 |-> Pick(<<20000, 10000>>),
   sigE |-> Pick(<<20, 40>>), p1RInf |-> Num(0, 2500), eR |-> Pick(<<41, 40000>>), r |-> Pick(<<1040, 4000, 10000>>), q |-> Pick(<<4000, 5000, 10000>>), r1 |-> Num(0, 3000), r2 |-> Pick(<<20000, 10000>>),
   dTS |-> Num(8000, 20000), t1 |-> Num(3000, 7000), t2 |-> Pick(<<8000, 10000>>), t3 |-> Pick(<<7000, 3000>>), t4 |-> Pick(<<10000, 8000>>), M |-> Pick(<<10, 10, 4>>),
   pn |-> gm.pn, en |-> gm.en, cmin |-> ex.cmin, cminr |-> IF ex.cmin > 0 THEN Num(2000, 8000) ELSE 0, fpecl |-> P1(4), fpene |-> ex.fpene, cons |-> m = "fp" /\ ex.cons, noredif |-> P1(4)]
Energy(C) == LET x == Pick(Es) IN IF C.noinc = 2 /\ x < 30 /\ x >= C.thr THEN 30 ELSE IF C.cons /\ x < 1000 THEN 1000 ELSE x
N0 == 3000
BatchOf(C, sd) == [op |-> "batch", e |-> Energy(C), e2 |-> 0, ct |-> Pick(Cs), w |-> R(6), N |-> N0, side |-> IF P1(3) THEN Num(0, 3) ELSE sd, phi |-> Num(0, 359), dt |-> 0]
\* two kinds of impacts in the same step
Mixed(C, sd) == [BatchOf(C, sd) EXCEPT !.e2 = Energy(C), !.N = 2200]
Curves(C) == [op |-> "curves", e |-> Pick(Es), e2 |-> Pick(Es), ct |-> Pick(Cs), w |-> 1, N |-> 4000, side |-> 0, phi |-> 0, dt |-> 0]
Evol == [op |-> "evol", e |-> 0, e2 |-> 0, ct |-> 0, w |-> 0, N |-> 0, side |-> 0, phi |-> 0, dt |-> Num(1, 2000)]
Sane(C, b) == C.model # "fp" \/ \A e \in {b.e, b.e2} \ {0} : LET d == FP(C, e, b.ct) IN d.e + d.r < 9000 /\ Lambda(d) < 60000
One(C, sd) == LET k == R(12) IN IF k = 1 /\ C.model # "absorber" THEN Curves(C) ELSE IF k <= 3 /\ C.model = "charging" THEN Evol ELSE IF k <= 7 /\ C.model # "charging" THEN Mixed(C, sd) ELSE BatchOf(C, sd)
Init == i = 0 /\ c = [model |-> "none"]
Next == /\ i' = i + 1
        /\ \E m \in {Pick(Models)}, tb \in {Table}, gm \in {Gam},
              ex \in {[E0 |-> P1(3), noinc |-> Pick(<<0, 2>>), clouds |-> R(2), cmin |-> IF P1(4) THEN Num(2000, 8000) ELSE 0, fpene |-> P1(3), cons |-> P1(4)]} :
           \E C \in {Surface(m, tb, gm, ex)} :
           \E bs \in {[j \in 1..Batches |-> One(C, R(4) - 1)]} :
              c' = [batches |-> SelectSeq(bs, LAMBDA b : Sane(C, b))] @@ C
Spec == Init /\ [][Next]_vars
Emit == c.model = "none" \/ PrintT("BEH " \o ToJson(c))
=============================================================================
