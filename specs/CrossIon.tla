------------------------------ MODULE CrossIon ------------------------------
(* Cross-ionization (cross_ionization.py).  Units: a particle of speed V has    *)
(* energy V^2; a table gives the cross-section s[i] at energies e0 + i*de or,   *)
(* logarithmic, e0 * 16^i; the expected charge created by a particle of weight  *)
(* w in one step of length dt is s(V^2) * V * w * dt.                           *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Pow16(_), SumTo(_, _)
Pow16(n) == IF n = 0 THEN 1 ELSE 16 * Pow16(n - 1)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Top(T) == IF T.log THEN T.e0 * Pow16(Len(T.s) - 1) ELSE T.e0 + T.de * (Len(T.s) - 1)
InRange(T, e) == e >= T.e0 /\ e <= Top(T)
\* cross-section times De(T), between two bounds (equal where the table is exact)
De(T) == IF T.log THEN 2 ELSE T.de
Last(T, i) == IF i >= Len(T.s) THEN Len(T.s) ELSE i
Sig(T, e) ==
  IF ~InRange(T, e) THEN <<0, 0>>
  ELSE IF T.log
  THEN LET i == CHOOSE i \in 1..Len(T.s) : T.e0 * Pow16(i - 1) <= e /\ (i = Len(T.s) \/ e < T.e0 * Pow16(i))
           a == T.s[i]  b == T.s[Last(T, i + 1)]
           x == T.e0 * Pow16(i - 1) IN
       IF e = x THEN <<2 * a, 2 * a>> ELSE IF e = 4 * x THEN <<a + b, a + b>>
       ELSE IF e < 4 * x THEN <<Min(2 * a, a + b), Max(2 * a, a + b)>> ELSE <<Min(a + b, 2 * b), Max(a + b, 2 * b)>>
  ELSE LET i == (e - T.e0) \div T.de + 1  r == (e - T.e0) % T.de
           a == T.s[i]  b == T.s[Last(T, i + 1)]
           v == a * T.de + r * (b - a) IN <<v, v>>
\* expected charge times De(T)
Charge(T, p, dt) == LET s == Sig(T, p.V * p.V) IN <<s[1] * p.V * p.w * dt, s[2] * p.V * p.w * dt>>
\* the size of the new macroparticles: that of the product's cloud or, generating equally, the mean over the products, times Len(prods)
RefNum(P, refs, c) == IF P.equal THEN SumTo(LAMBDA j : refs[P.prods[j]], Len(P.prods)) ELSE refs[c]
RefDen(P) == IF P.equal THEN Len(P.prods) ELSE 1
\* numbers of new macroparticles of cloud c from projectile p: the two integers around the expected number
Low(P, refs, c, p, dt) == (Charge(P.T, p, dt)[1] * RefDen(P)) \div (De(P.T) * RefNum(P, refs, c))
High(P, refs, c, p, dt) == LET a == Charge(P.T, p, dt)[2] * RefDen(P)  d == De(P.T) * RefNum(P, refs, c) IN (a + d - 1) \div d
Counts(P, refs, c, p, dt) == Low(P, refs, c, p, dt)..High(P, refs, c, p, dt)
=============================================================================
