------------------------------- MODULE CICGen ------------------------------
(* Random scenes for the kernels.                                              *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, i
vars == <<c, i>>
R(n) == RandomElement(1..(n + 0 * i))
Num(a, b) == R(b - a + 1) + a - 1
Q == 4
\* mostly inside, often on nodes and edges, sometimes outside
X(N) == LET k == R(10) IN IF k = 1 THEN Num(-9, Q * N + 5) ELSE IF k <= 4 THEN Q * Num(0, N - 1) ELSE IF k = 5 THEN Num(0, 3) ELSE Num(0, Q * (N - 1))
Wt == IF R(8) = 1 THEN Num(-3, 0) ELSE Num(1, 9)
Scene(N, n) == [op |-> "rho", N |-> N, ps |-> [j \in 1..n |-> <<X(N[1]), X(N[2]), Wt>>]]
GatherOf(N, n) == [op |-> "gather", N |-> N, ps |-> [j \in 1..n |-> <<X(N[1]), X(N[2]), 1>>],
                   ex |-> [a \in 1..N[1] |-> [b \in 1..N[2] |-> Num(-20, 20)]], ey |-> [a \in 1..N[1] |-> [b \in 1..N[2] |-> Num(-20, 20)]]]
HistOf(N, n) == [op |-> "hist", N |-> N, pre |-> [a \in 1..N[1] |-> Num(0, 9)],
                 ps |-> [j \in 1..n |-> <<IF R(6) = 1 THEN Num(-12, -1) ELSE IF R(6) = 1 THEN Num(Q * (N[1] - 1), Q * N[1] + 40) ELSE X(N[1]), Wt>>]]
SegOf(N, n) == [op |-> "seg", N |-> N, pre |-> [a \in 1..N[1] |-> Num(0, 9)], ps |-> [j \in 1..n |-> <<Num(-2, N[1] + 1), Wt>>]]
SumOf(N, n) == [op |-> "sum", N |-> N, ps |-> [j \in 1..n |-> <<Num(-99, 99)>>]]
One(N, n, k) == CASE k <= 3 -> Scene(N, n) [] k <= 6 -> GatherOf(N, n) [] k <= 8 -> HistOf(N, n) [] k = 9 -> SegOf(N, n) [] OTHER -> SumOf(N, n - 1)
\* unit: the size of a cell and the place of the first node; kind: the type and layout of the arrays
Init == i = 0 /\ c = [op |-> "none"]
Next == /\ i' = i + 1
        /\ \E N \in {<<Num(2, 7), Num(2, 7)>>}, n \in {IF R(6) = 1 THEN Num(20, 60) ELSE Num(1, 9)}, k \in {R(10)} :
           \E o \in {One(N, n, k)} : c' = [unit |-> R(6), kind |-> R(5)] @@ o
Spec == Init /\ [][Next]_vars
Emit == c.op = "none" \/ PrintT("BEH " \o ToJson(c))
=============================================================================
