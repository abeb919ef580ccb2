-------------------------------- MODULE Fix ---------------------------------
(* Fixed-point arithmetic: numbers in units of 1e-4 (ONE = 1), results good to  *)
(* a few units and a few 1e-4 relative.                                        *)
EXTENDS Integers
ONE == 10000
LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
LOCAL Min2(a, b) == IF a < b THEN a ELSE b
LOCAL Max2(a, b) == IF a > b THEN a ELSE b
Mul(a, b) == a * (b \div ONE) + (a * (b % ONE) + 5000) \div ONE
RECURSIVE Dvd(_, _)
Dvd(a, b) == IF b > 200000 THEN Dvd(a \div 8, b \div 8) ELSE (a \div b) * ONE + ((a % b) * ONE + b \div 2) \div b
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE Taylor(_, _)
Taylor(r, n) == IF n > 9 THEN ONE ELSE ONE + Mul(r, Taylor(r, n + 1)) \div n
Exp(x) == IF x < -110000 THEN 0
          ELSE LET k == (100 * x) \div 693147
                   r == (100 * x - k * 693147 + 50) \div 100
                   e == Taylor(r, 1)
               IN IF k >= 0 THEN e * Pow2(k) ELSE (e + Pow2(-k) \div 2) \div Pow2(-k)
RECURSIVE Lg(_, _)
Lg(n, k) == IF n < 2 * Pow2(k) THEN k ELSE Lg(n, k + 1)
\* logarithm of a positive integer up to 400000
LnI(n) == LET k == Lg(n, 0)
              m == Dvd(n, Pow2(k))
              t == Dvd(m - ONE, m + ONE)
              u == Mul(t, t)
              s == ONE + Mul(u, ONE \div 3 + Mul(u, 2000 + Mul(u, 1429 + Mul(u, 1111 + Mul(u, 909)))))
          IN (k * 693147 + 50) \div 100 + 2 * Mul(t, s)
LN1 == 92103                                 \* ln 10000
Ln(x) == LnI(x) - LN1
Pow(x, s) == IF x <= 0 THEN 0 ELSE Exp(Mul(s, Ln(x)))
Sqrt(x) == IF x <= 0 THEN 0 ELSE Exp(Ln(x) \div 2)
\* cosine for 0 <= x <= pi/2
Cos(x) == LET u == Mul(x, x) IN ONE - Mul(u, 5000 - Mul(u, 417 - Mul(u, 14)))
\* distribution function of the normal distribution
Phi(z) == LET a == Min2(Abs(z), 45000)
              t == Dvd(ONE, ONE + Mul(3327, a))
              f == Mul(3989, Exp(-(Mul(a, a) \div 2)))
              q == Mul(f, Mul(t, 4362 + Mul(t, Mul(t, 9373) - 1202)))
          IN IF z < 0 THEN q ELSE ONE - q
Erf(z) == 2 * Phi(Mul(Min2(z, 50000), 14142)) - ONE
\* integral of t^(p-1) e^-t from 0 to x (t = u^2; midpoints), x <= 20
GammaInt(p, x) == LET n == 40
                      X == Sqrt(x)
                      RECURSIVE S(_)
                      S(j) == IF j > n THEN 0
                              ELSE LET u == ((2 * j - 1) * X) \div (2 * n)
                                       g == IF u = 0 THEN 0 ELSE Exp(Mul(2 * p - ONE, Ln(u)) - Mul(u, u))
                                   IN g + S(j + 1)
                  IN LET a == 2 * S(1) IN IF a < 200000 THEN (a * (X \div 10)) \div (n * 1000) ELSE Mul(a \div n, X)
=============================================================================
