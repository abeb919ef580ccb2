------------------------------ MODULE MotionGen -----------------------------
(* Random configurations of fields, trackers and macroparticles.               *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES c, i
vars == <<c, i>>
R(n) == RandomElement(1..(n + 0 * i))
P(n) == R(n) = 1
Pick(s) == s[R(Len(s))]
Num(a, b) == R(b - a + 1) + a - 1
Vec3(a) == <<Num(-a, a), Num(-a, a), Num(-a, a)>>
Flat(a) == <<Num(-a, a), Num(-a, a), 0>>
Coefs(n) == [j \in 1..n |-> IF P(2) THEN 0 ELSE Num(-2, 2)]
K == 3
Table == [a \in 1..(2 * K + 1) |-> [b \in 1..(2 * K + 1) |-> 4 * Num(-1, 1)]]
Zeros == [a \in 1..(2 * K + 1) |-> [b \in 1..(2 * K + 1) |-> 0]]
None == [kind |-> "none", b0 |-> <<0, 0, 0>>, b |-> <<>>, s |-> <<>>, mx |-> <<>>, my |-> <<>>, mz |-> <<>>, K |-> K]
Quad(g) == [None EXCEPT !.kind = "multi", !.b = <<0, g>>]
MapF(z) == [None EXCEPT !.kind = "map", !.mx = Table, !.my = Table, !.mz = (IF z THEN Table ELSE Zeros)]
Field(m) == CASE m = "none" -> None
              [] m = "quad" -> Quad(Num(-2, 2))
              [] m = "map" -> MapF(P(2))
              [] m = "flat" -> [MapF(FALSE) EXCEPT !.mz = Zeros]
              [] m = "multi" -> [None EXCEPT !.kind = "multi", !.b = Coefs(R(3)), !.s = (IF P(3) THEN <<>> ELSE Coefs(R(3)))]
Const(f, zero) == [f EXCEPT !.b0 = (IF zero THEN <<0, 0, 0>> ELSE Vec3(1))]
Pos(a) == IF P(10) THEN Pick(<<-8, 7, 9>>) ELSE Num(-a, a)
Parts(n, custom, pos, far) == [j \in 1..n |-> [x |-> IF far THEN <<Pos(pos), Pos(pos), Num(-3, 3)>> ELSE <<Num(-pos, pos), Num(-pos, pos), Num(-3, 3)>>, v |-> Vec3(2), g |-> Flat(1),
                                               c |-> IF custom THEN Vec3(1) ELSE <<0, 0, 0>>]]
\* leap-frog trackers
Uniform(f) == f.kind = "none" \/ (f.kind = "multi" /\ \A n \in {1, 2} : (n < Len(f.b) => f.b[n + 1] = 0) /\ (n < Len(f.s) => f.s[n + 1] = 0))
CallOf(f, m, custom) == [n |-> IF Uniform(f) THEN R(IF m = 1 /\ f.kind = "none" THEN 3 ELSE 2) ELSE 1, own |-> P(2),
                         parts |-> Parts(IF P(8) THEN 0 ELSE R(6), custom, 3, f.kind = "map")]
Boris(tr, f, m) == \E h \in {R(2)}, q \in {Pick(<<-1, -1, 1>>)}, custom \in {tr = "multi" /\ P(3)} :
                   c' = [meth |-> tr, f |-> f, h |-> h, m |-> m, q |-> q, custom |-> custom, deck |-> P(4), calls |-> [j \in 1..R(3) |-> CallOf(f, m, custom)]]
\* strong-field trackers: exact motion over k quarter turns in the unit field
Square == {1, 2, 3, 4, 5}
Strong(tr, f) == \E k \in {R(3)} :
                 c' = [meth |-> tr, f |-> f, h |-> 1, m |-> 1, q |-> -1, custom |-> FALSE, deck |-> P(4),
                       k |-> k, calls |-> [j \in 1..R(3) |-> [n |-> 1, own |-> FALSE, parts |-> Parts(IF P(8) THEN 0 ELSE R(6), FALSE, 5, f.kind = "map")]]]
Init == i = 0 /\ c = [meth |-> "none"]
Next == /\ i' = i + 1
        /\ \E kind \in {R(8)} :
           CASE kind <= 3 -> \E f0 \in {Field(Pick(<<"none", "quad", "map">>))}, z \in {P(3)}, m \in {R(2)} : \E f \in {Const(f0, z)} : Boris("boris", f, m)
             [] kind \in 4..6 -> \E f0 \in {Field("multi")}, z \in {P(2)}, m \in {R(2)} : \E f \in {Const(f0, z)} : Boris("multi", f, m)
             [] kind = 7 -> \E b \in {Pick(<<-2, -1, 1, 2>>)} : Strong("dip", [None EXCEPT !.b0 = <<0, b, 0>>])
             [] kind = 8 -> \E f \in {Field(Pick(<<"none", "quad", "flat">>))}, b \in {Pick(<< <<0, 0, 0>>, <<0, 1, 0>>, <<-1, 0, 0>>, <<3, -4, 0>>, <<0, 2, 0>> >>)} : Strong("gen", [f EXCEPT !.b0 = b])
Spec == Init /\ [][Next]_vars
Emit == c.meth = "none" \/ PrintT("BEH " \o ToJson(c))
=============================================================================
