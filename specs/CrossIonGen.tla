----------------------------- MODULE CrossIonGen ----------------------------
(* Random sets of processes and populations.                                   *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, i
vars == <<c, i>>
R(n) == RandomElement(1..(n + 0 * i))
P1(n) == R(n) = 1
Num(a, b) == R(b - a + 1) + a - 1
Pick(s) == s[R(Len(s))]
Names == <<"e", "i", "j">>
Table == LET n == Num(2, 7) IN
         IF P1(3) THEN [log |-> TRUE, e0 |-> Pick(<<1, 1, 4, 9>>), de |-> 0, s |-> [j \in 1..Num(3, 4) |-> Num(0, 6)]]
         ELSE [log |-> FALSE, e0 |-> Pick(<<0, 1, 4, 9, 10>>), de |-> Pick(<<1, 2, 3, 4, 6, 12>>), s |-> [j \in 1..n |-> Num(0, 6)]]
Prods == Pick(<< <<"e", "i">>, <<"i", "e">>, <<"i">>, <<"e">>, <<"e", "i", "j">>, <<"j", "i">>, <<"e", "i">> >>)
Proc(sm, th) == [T |-> Table, prods |-> Prods, equal |-> P1(2), Ei |-> Pick(<<0, 3, 30>>), thin |-> th, tot |-> IF th THEN Num(6000, 9000) ELSE 1, give |-> P1(2)]
\* whole-number speeds in space
Vel(k) == LET s == Pick(<< <<0, 0, 0>>, <<0, 0, 1>>, <<0, 2, 0>>, <<3, 0, 0>>, <<1, 2, 2>>, <<0, 3, 4>>, <<4, 0, 0>>, <<2, 3, 6>>, <<0, 0, 8>>, <<4, 4, 7>>, <<2, 4, 4>>, <<0, 12, 5>>, <<1, 0, 0>>, <<0, 16, 0>>, <<8, 9, 12>> >>)
              g(x) == IF P1(2) THEN x ELSE -x
          IN IF P1(2) THEN <<g(s[1]), g(s[2]), g(s[3])>> ELSE <<g(s[3]), g(s[1]), g(s[2])>>
Pop(n, th) == [j \in 1..n |-> [v |-> Vel(j), w |-> IF th THEN 1 ELSE Num(1, 4), rep |-> IF ~th /\ P1(5) THEN Num(200, 600) ELSE 1]]
Step(k, th) == [dt |-> IF th THEN 1 ELSE Num(1, 3), save |-> P1(2), pops |-> [j \in 1..3 |-> Pop(IF P1(6) THEN 0 ELSE Num(1, IF th THEN 3 ELSE 5), th)]]
Init == i = 0 /\ c = [refs |-> <<>>]
\* lists of processes per projectile cloud; at most one cloud consumes a scarce gas
Next == /\ i' = i + 1
        /\ \E th \in {P1(4)} :
           \E pr \in {<< [j \in 1..(IF th THEN 1 ELSE Num(1, 2)) |-> Proc(j, th)], IF P1(3) THEN [j \in 1..Num(1, 2) |-> Proc(j, FALSE)] ELSE <<>>, <<>> >>} :
              c' = [refs |-> [j \in 1..3 |-> IF th THEN Num(3, 20) ELSE Num(8, 150)], procs |-> pr, steps |-> [j \in 1..Num(1, 4) |-> Step(j, th)], extract |-> P1(6)]
Spec == Init /\ [][Next]_vars
Emit == c.refs = <<>> \/ PrintT("BEH " \o ToJson(c))
=============================================================================
