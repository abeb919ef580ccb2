-------------------------------- MODULE Tally -------------------------------
(* The accumulated diagnostics of the wall interactions.  A histogram is a     *)
(* function from nodes 1..n to integers; a value at position x (thousandths of *)
(* the node distance from the first node) with weight w (a multiple of 1000)   *)
(* is shared linearly between the two neighbouring nodes; beyond the last node *)
(* it counts there.                                                            *)
EXTENDS Integers, Sequences
Share(x, n, j) == LET c == (x \div 1000) + 1  f == x % 1000 IN
                  IF c >= n THEN (IF j = n THEN 1000 ELSE 0)
                  ELSE IF j = c THEN 1000 - f ELSE IF j = c + 1 THEN f ELSE 0
Zero(n) == [j \in 1..n |-> 0]
\* s: sequence of <<position, weight per mille>>
RECURSIVE Deposit(_, _, _, _)
Deposit(h, n, s, i) == IF i > Len(s) THEN h
                       ELSE Deposit([j \in 1..n |-> h[j] + s[i][2] * Share(s[i][1], n, j)], n, s, i + 1)
Add(h, n, s) == Deposit(h, n, s, 1)
\* s: sequence of <<bin, weight>>
RECURSIVE CountIn(_, _, _, _)
CountIn(h, n, s, i) == IF i > Len(s) THEN h ELSE CountIn([j \in 1..n |-> h[j] + (IF j = s[i][1] THEN s[i][2] ELSE 0)], n, s, i + 1)
Count(h, n, s) == CountIn(h, n, s, 1)
RECURSIVE SumF(_, _)
SumF(h, n) == IF n = 0 THEN 0 ELSE h[n] + SumF(h, n - 1)
RECURSIVE SumS(_, _)
SumS(s, i) == IF i > Len(s) THEN 0 ELSE s[i][2] + SumS(s, i + 1)
Sub(s, Test(_), F(_)) == LET m == SelectSeq(s, Test) IN [i \in 1..Len(m) |-> F(m[i])]
=============================================================================
