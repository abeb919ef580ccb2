------------------------------ MODULE Emission ------------------------------
(* Secondary emission: yields, event probabilities, numbers of electrons and    *)
(* distributions of energies and angles of every model, as functions of the     *)
(* surface C, the energy e (0.1 eV) and the cosine ct of the angle of incidence. *)
EXTENDS Fix, Sequences, FiniteSets
Dvd2(a, b) == IF a < 0 THEN -Dvd(-a, b) ELSE Dvd(a, b)
LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
LOCAL Min2(a, b) == IF a < b THEN a ELSE b
LOCAL Max2(a, b) == IF a > b THEN a ELSE b

Scale(C, ct) == IF C.cds THEN Exp((ONE - ct) \div 2) ELSE ONE
Shift(C, ct) == IF C.ces THEN ONE + Mul(7000, ONE - ct) ELSE ONE
\* s x / (s - 1 + x^s) for the energy ratio exp(l)
Dfun(s, l) == Exp(l + Ln(s) - Ln(s - ONE + Exp(Mul(s, l))))
\* true secondaries of the ECLOUD family
TrueSec(C, e, ct) == Mul(Mul(C.del_max, Scale(C, ct)), Dfun(C.s, LnI(10 * e) - LnI((C.Emax * Shift(C, ct)) \div 100)))
Refl(C, e) == LET r == Sqrt(Dvd(e, e + 10 * C.E0))
                  a == Dvd(ONE - r, ONE + r)
              IN Mul(C.R0, Mul(a, a))
\* tabulated values: table starts at C.e0 with steps C.de (eV); C.es and C.ts
Interp(C, t, x) == LET j == (x - C.e0 * 100) \div (C.de * 100)
                       f == Dvd((x - C.e0 * 100) - j * C.de * 100, C.de * 100)
                   IN IF j + 2 > Len(t) THEN t[Len(t)] ELSE t[j + 1] + Mul(f, t[j + 2] - t[j + 1])
Top(C) == (C.e0 + C.de * (Len(C.tt) - 1)) * 100
Tab(C, t, x, k, g) == IF x > Top(C) THEN k + (g * (x \div 100)) ELSE Interp(C, t, x)     \* x in 0.01 eV
Pos(x) == Max2(x, 0)

\* what an impact emits: reflected and true yields (without charging)
Reflected(C, e, ct) ==
  CASE C.model \in {"ecloud", "acc", "nunif", "charging"} -> Refl(C, e)
    [] C.model = "cos" -> IF e < 10 * C.E0 THEN LET k == Cos(Dvd(15708 * e, 10 * C.E0 * ONE)) IN Mul(C.R0, Mul(k, k)) ELSE 0
    [] C.model = "flat" -> LET t == TrueSec(C, e, ct) IN IF t < C.R0 /\ e < 10 * C.Emax THEN C.R0 - t ELSE 0
    [] C.model = "file" -> Pos(Tab(C, C.te, 10 * e, C.ke, C.ge))
    [] OTHER -> 0
Trues(C, e, ct) ==
  CASE C.model \in {"ecloud", "acc", "nunif", "charging", "cos", "flat"} -> TrueSec(C, e, ct)
    [] C.model = "file" -> Pos(Mul(Tab(C, C.tt, Dvd(10 * e, Shift(C, ct)), C.kt, C.gt), Scale(C, ct)))
    [] OTHER -> 0
Delta(C, e, ct) == Trues(C, e, ct) + Reflected(C, e, ct)
\* a charged segment: fraction c of its largest charge
Clip(x, a, b) == Max2(a, Min2(x, b))
Charged(C, y, e, c) == Mul(y, ONE - c) + Mul(ONE - Exp(-Dvd(e, 10 * C.EQ)), c)
\* probability of an elastic event; charge emitted by elastic and other events, per unit charge
PElast(C, e, ct) == LET d == Delta(C, e, ct) IN
                    IF C.model = "acc" THEN Reflected(C, e, ct) ELSE IF d = 0 THEN 0 ELSE Dvd(Reflected(C, e, ct), d)
YElast(C, e, ct, c) == IF C.model = "acc" THEN ONE ELSE Charged(C, Delta(C, e, ct), e, c)
YTrue(C, e, ct, c) == IF C.model = "acc" THEN Dvd(Trues(C, e, ct), ONE - Reflected(C, e, ct)) ELSE Charged(C, Delta(C, e, ct), e, c)
\* number of equal parts of a charge q no larger than the threshold th
Parts(q, th) == Max2((q + th - 1) \div th, 1)

\* Furman-Pivi
Ang(C, c, a, b) == IF C.cds THEN ONE + Mul(a, ONE - Pow(c, b)) ELSE ONE
DeltaE(C, e, ct) == LET d == C.p1EInf + Mul(C.p1Ehat - C.p1EInf, Exp(-Dvd(Pow(Dvd(Abs(e - C.eEHat), C.w), C.p), C.p)))
                    IN IF C.fpecl THEN d ELSE Mul(d, Ang(C, Max2(ct, C.cmin), C.e1, C.e2))
DeltaR(C, e, ct) == LET d == Mul(C.p1RInf, ONE - Exp(-Exp(Mul(C.r, LnI(100 * e) - LnI(C.eR)))))        \* eR in meV
                    IN Mul(d, Ang(C, Max2(ct, C.cminr), C.r1, C.r2))
DeltaT(C, e, ct) == LET t3 == IF C.fpecl THEN 7000 ELSE C.t3
                        t4 == IF C.fpecl THEN ONE ELSE C.t4
                        sh == IF C.ces THEN ONE + Mul(t3, ONE - Pow(ct, t4)) ELSE ONE
                        d == Mul(C.dTS, Dfun(C.s, LnI(10 * e) - LnI((C.Emax * sh) \div 100)))
                    IN IF ~C.cds THEN d ELSE IF C.fpecl THEN Mul(d, Exp((ONE - ct) \div 2)) ELSE Mul(d, Ang(C, ct, C.t1, C.t2))
FP(C, e, ct) == [e |-> DeltaE(C, e, ct), r |-> IF C.noredif THEN 0 ELSE DeltaR(C, e, ct), t |-> DeltaT(C, e, ct)]
Lambda(d) == Dvd(d.t, ONE - d.e - d.r)
RECURSIVE Poi(_, _)
Poi(lam, n) == IF n = 0 THEN Exp(-lam) ELSE Mul(Poi(lam, n - 1), lam) \div n
RECURSIVE PoiSum(_, _)
PoiSum(lam, n) == IF n < 0 THEN 0 ELSE Poi(lam, n) + PoiSum(lam, n - 1)
\* n electrons from a true secondary event
PTrue(C, d, n) == IF n > C.M THEN 0 ELSE Dvd(Poi(Lambda(d), n), PoiSum(Lambda(d), C.M))
PNumber(C, d, n) == Mul(ONE - d.e - d.r, PTrue(C, d, n)) + IF n = 1 THEN d.e + d.r ELSE 0

\* energies: probability of at most x (0.1 eV) for the impact energy e
CdfLogn(C, e, x) == LET top == IF C.noinc = 2 THEN Min2(e, C.Eth) ELSE C.Eth
                        Z(y) == Dvd2(LnI(y) - 23026 - C.mu, C.sigma)
                    IN IF C.noinc = 2 /\ e < C.thr THEN IF x >= e THEN ONE ELSE Mul(Dvd(x, e), Dvd(x, e))
                       ELSE IF x >= top THEN ONE ELSE Dvd(Phi(Z(x)), Phi(Z(top)))
CdfBack(C, e, x) == IF x >= e THEN ONE ELSE ONE - Dvd(Erf(Dvd((e - x) * 707, C.sigE * 1000)), Erf(Dvd(e * 707, C.sigE * 1000)))
CdfRedif(C, e, x) == IF x >= e THEN ONE ELSE Pow(Dvd(x, e), C.q + ONE)
CdfGamma(C, n, e, x) == LET G(y) == GammaInt(C.pn[n], Min2(Dvd(y * 10, C.en[n] \div 100), 160000))
                        IN IF x >= e THEN ONE ELSE Dvd(G(x), G(e))
CdfTrue(C, n, e, x) == IF C.fpene THEN CdfLogn(C, e, x) ELSE CdfGamma(C, n, e, x)
=============================================================================
