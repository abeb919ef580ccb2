----------------------------- MODULE CouplingGen -----------------------------
(* Random histories: passages, resets, twins, frozen maps, with random slicing. *)
EXTENDS Coupling, TLC, Json
VARIABLES c, i
vars == <<c, i>>
R(n) == RandomElement(1..(n + 0 * i))
P1(n) == R(n) = 1
Num(a, b) == R(b - a + 1) + a - 1
Pick(s) == s[R(Len(s))]
Slice(D, free) == [n |-> Pick(<<0, 1, 2, 4>>), d |-> IF D = 0 \/ (~c.frz /\ P1(20)) THEN Num(1, 6) ELSE Num(1, D), inter |-> TRUE, bunch |-> 0, isl |-> 0]
Gap(D) == [n |-> Pick(<<0, 0, 3>>), d |-> Num(1, 9), inter |-> FALSE, bunch |-> 0, isl |-> 0]
One(D, free) == IF free /\ P1(3) THEN Gap(D) ELSE Slice(D, free)
Bunched(info, cut, m) == [n \in 1..m |-> IF ~info THEN <<0, 0>> ELSE IF n <= cut THEN <<0, n - 1>> ELSE <<1, n - cut - 1>>]
Beam(D, free, info, m) == \E cut \in {Num(1, m)} : \E bi \in {Bunched(info, cut, m)} : \E s \in {[n \in 1..m |-> One(D, free)]} :
    c' = [c EXCEPT !.beams = Append(@, [n \in 1..m |-> [s[n] EXCEPT !.bunch = bi[n][1], !.isl = bi[n][2]]])] /\ i' = i + 1
Obs == Pick(<< <<>>, <<"rho", "E">>, <<"pot", "pos">>, <<"potE", "vel", "size">>, <<"brho", "bE">>, <<"E", "brho", "pos">> >>)
Probes == IF P1(3) THEN << <<3, -4>>, <<-21, 9>> >> ELSE <<>>
Op(md, tw, n) == IF md = "whole" THEN [k |-> IF P1(9) THEN "once" ELSE "track", b |-> R(2), c |-> IF tw THEN R(2) ELSE 1, del |-> FALSE]
             ELSE [k |-> IF P1(3) THEN "reset" ELSE "track", b |-> R(2), c |-> 1, del |-> FALSE]
T(b) == [k |-> "track", b |-> b, c |-> 1, del |-> FALSE]
Rs == [k |-> "reset", b |-> 1, c |-> 1, del |-> FALSE]
\* the frozen map follows one passage with interacting slices only
Frz(md, b) == <<[k |-> "freeze", b |-> b, c |-> 1, del |-> P1(2)]>> \o (IF md = "whole" THEN <<T(b), T(b)>> ELSE <<T(b), Rs, T(b)>>)
Init == i = 0 /\ c = [st |-> 0]
Head0 == \E md \in {Pick(<<"whole", "slices">>)} : \E info \in {md = "slices" /\ ~P1(3)} : \E D \in {Pick(<<3, 4, 4, 6>>)} : \E tw \in {md = "whole" /\ P1(3)} : \E fr \in {~tw /\ P1(3)} : \E m \in {Num(1, 5)} : \E sv \in {~tw /\ P1(2)} :
   /\ c' = [st |-> 1, mode |-> md, info |-> info, D |-> D, ref |-> Pick(<<1, 2, 3, 9>>), twin |-> tw, frz |-> fr, m |-> m, save |-> sv, opt |-> IF sv THEN Pick(<<"none", "custom", "only", "life", "every2">>) ELSE Pick(<<"none", "none", "life">>),
            off |-> Pick(<< <<0, 0>>, <<25, -13>>, <<-40, 0>> >>), kickx |-> ~P1(5), kicky |-> ~P1(5), probes |-> Probes, obs |-> Obs, cleanf |-> (md = "whole" /\ P1(2)), kickmode |-> P1(3), again |-> P1(3), bare |-> P1(2),
            beams |-> <<>>, ops |-> <<>>]
   /\ i' = i + 1
Beams == c.st = 1 /\ Len(c.beams) < 2 /\ Beam(c.D, c.mode = "slices" /\ ~c.frz, c.info, c.m)
Ops == /\ c.st = 1 /\ Len(c.beams) = 2 /\ i' = i + 1
       /\ \E h \in {[n \in 1..Num(1, 4) |-> Op(c.mode, c.twin, n)]} : \E b \in {R(2)} :
            c' = [c EXCEPT !.st = 2, !.ops = IF c.frz THEN (IF P1(2) THEN <<T(b)>> ELSE <<>>) \o Frz(c.mode, b) ELSE h]
Next == IF c.st = 1 THEN (IF Len(c.beams) < 2 THEN Beams ELSE Ops) ELSE Head0
Spec == Init /\ [][Next]_vars
Emit == c.st # 2 \/ PrintT("BEH " \o ToJson(c))
=============================================================================
