------------------------------ MODULE PrimaryMC ------------------------------
(* The generation process on a small chamber: an ionizing beam, photoemission   *)
(* from the wall and an initial fill, with candidates redrawn until inside.     *)
EXTENDS Primary, TLC
CONSTANTS Steps, MaxLam
\* cells of a 2 x 2 aperture; one corner is outside
Cells == {<<x, y>> : x \in 0..1, y \in 0..1}
In(p) == p # <<1, 1>>
OnWall(p) == p # <<0, 0>> /\ In(p) /\ \E q \in {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>} : LET r == <<p[1] + q[1], p[2] + q[2]>> IN r \notin Cells \/ ~In(r)
VARIABLES t, tion, ref, lam, rate, pend, cloud, asked, src, dropped
vars == <<t, tion, ref, lam, rate, pend, cloud, asked, src, dropped>>
\* asked[s]: charge asked of a source so far; cloud: macroparticles <<source, place>> as a bag
Srcs == {"gas", "photo", "fill", "dens"}
Init == /\ t = 0 /\ tion \in {0, 1} /\ ref \in {2, 3} /\ lam \in 0..MaxLam /\ rate = 1
        /\ pend = [s \in Srcs |-> 0] /\ cloud = <<>> /\ asked = [s \in Srcs |-> 0] /\ src = "fill" /\ dropped = 0
\* the source decides how many macroparticles to make
Charge(s) == CASE s = "gas" -> IF t <= tion THEN rate * lam ELSE 0
               [] s = "photo" -> 2 * lam
               [] s = "fill" -> IF t = 0 THEN 3 ELSE 0
               [] OTHER -> IF t = 0 THEN 4 ELSE 0
Next0(s) == CASE s = "fill" -> "dens" [] s = "dens" -> "step" [] s = "gas" -> "photo" [] OTHER -> "step"
Decide == /\ src \in Srcs /\ \A s \in Srcs : pend[s] = 0
          /\ \E u \in 0..ref - 1 : pend' = [pend EXCEPT ![src] = Rounded(Charge(src), ref, u)]
          /\ asked' = [asked EXCEPT ![src] = @ + Charge(src)]
          /\ src' = Next0(src) /\ UNCHANGED <<t, tion, ref, lam, rate, cloud, dropped>>
\* candidates: outside ones are drawn again (dropped by the fill with a density)
Place(s) == /\ pend[s] > 0
            /\ \E p \in Cells : /\ (s = "photo" => OnWall(p))
                                /\ IF In(p) THEN cloud' = Append(cloud, [s |-> s, p |-> p]) /\ pend' = [pend EXCEPT ![s] = @ - 1] /\ UNCHANGED dropped
                                   ELSE IF s = "dens" THEN dropped' = dropped + 1 /\ pend' = [pend EXCEPT ![s] = @ - 1] /\ UNCHANGED cloud
                                   ELSE UNCHANGED <<cloud, pend, dropped>>
            /\ UNCHANGED <<t, tion, ref, lam, rate, asked, src>>
Step == /\ src = "step" /\ \A s \in Srcs : pend[s] = 0 /\ t < Steps
        /\ t' = t + 1 /\ src' = "gas" /\ UNCHANGED <<tion, ref, lam, rate, pend, cloud, asked, dropped>>
Next == Decide \/ (\E s \in Srcs : Place(s)) \/ Step
Spec == Init /\ [][Next]_vars
View == <<t, tion, ref, lam, rate, pend, [s \in Srcs |-> [p \in Cells |-> Cardinality({j \in 1..Len(cloud) : cloud[j].s = s /\ cloud[j].p = p})]], asked, src, dropped>>
Made(s) == Cardinality({j \in 1..Len(cloud) : cloud[j].s = s}) + pend[s] + (IF s = "dens" THEN dropped ELSE 0)
Inv == /\ \A j \in 1..Len(cloud) : In(cloud[j].p) /\ (cloud[j].s = "photo" => OnWall(cloud[j].p))
       /\ \A s \in Srcs : LET d == Made(s) * ref - asked[s] IN d < ref * (t + 1) /\ -d < ref * (t + 1)
       /\ \A s \in Srcs : asked[s] = 0 => Made(s) = 0
       /\ asked["gas"] <= rate * lam * Lo(t, tion) /\ asked["photo"] <= 2 * lam * t
       /\ asked["fill"] <= 3 /\ asked["dens"] <= 4
\* rounding keeps the average, and full averages lie between the neighbours
ASSUME \A den \in 1..12 : \A num \in 0..40 :
   /\ SumSeq(LAMBDA u : Rounded(num, den, u - 1), den) = num
   /\ \A u \in 0..den - 1 : Rounded(num, den, u) \in Floor(num, den)..Ceil(num, den)
\* redrawing leaves every inside cell equally likely: of all first hits, each inside cell comes after the same number of outside candidates
ASSUME \A n \in 0..2 : \A p \in {c \in Cells : In(c)} : Cardinality({s \in [1..n + 1 -> Cells] : s[n + 1] = p /\ \A j \in 1..n : ~In(s[j])}) = IF n = 0 THEN 1 ELSE 1
\* the table of the normal distribution: increasing, symmetric, and shares add up
ASSUME \A h \in -9..8 : Phi(h) <= Phi(h + 1) /\ Phi(h) + Phi(-h) = 10000
ASSUME \A w \in 1..8 : \A h \in -7..7 : LET a == Between(-8, h, -8, w)  b == Between(h, 8, -8, w) IN a + b \in 9998..10000
ASSUME \A H \in {[kind |-> "poly", ax |-> 3, ay |-> 2, V |-> << <<3, 0>>, <<0, 2>>, <<-3, 0>>, <<0, -2>> >>]} : Area113(H) = 113 * 12 /\ Inside(H, <<1, 1>>) /\ ~Inside(H, <<2, 1>>)
=============================================================================
