---------------------------- MODULE PrimaryTrace -----------------------------
(* Recorded generations of the real sources: small steps (calls repeated) and   *)
(* one large one, whose n macroparticles are counted in regions.                *)
EXTENDS Primary, TraceUtil
VARIABLES k, l
T == Traces[k]
Ev == T.ev
E == Ev[l]
C == T.cfg
H == C.cham
Cont == C.kind \in {"photo", "all", "seg"} /\ C.cont
Box0 == IF C.kind = "gas" \/ C.none THEN Whole(H) ELSE C.box
Lam == IF Cont THEN SumSeq(LAMBDA j : C.lams[j], Len(C.lams)) ELSE C.rate.lam
Num == IF C.kind = "dens" THEN C.rate.p * Area(Box0) ELSE C.rate.p * C.rate.s * Lam * C.rate.dt
Den == IF C.kind = "dens" THEN 100 * C.ref ELSE C.rate.T * C.ref * (IF Cont THEN Len(C.lams) ELSE 1)
\* six standard deviations of a count of n tries with share s (ten-thousandths), at least
Band(n, s) == 6 * Isqrt((((n * s) \div 10000) * (10000 - s)) \div 10000 + 1, 0) + 3 + n \div 500
Near(cnt, n, s) == Abs(cnt - (n * s) \div 10000) <= Band(n, s)
\* shares of areas in ten-thousandths
Ratio(a, b) == IF a > 100000 THEN (a * 1000) \div (b \div 10) ELSE (a * 10000) \div b
Calls == C.calls
NumberOK ==
  LET mean == (Calls * Num) \div Den  b == 3 * Isqrt(Calls, 0) + 2 IN
  /\ E.hi <= Ceil(Num, Den)
  /\ IF C.kind # "dens" \/ BoxIn(H, Box0) THEN E.lo >= Floor(Num, Den) /\ Abs(E.tot - mean) <= b /\ Abs(E.n - E.want) <= 1
     ELSE /\ E.n <= E.want + 1
          /\ (C.none => LET s == Ratio(Area113(H), 113 * Area(Box0)) IN
                Abs(E.tot - (mean * s) \div 10000) <= b + Band(mean, s) + mean \div 50 /\ Abs(E.n - (E.want * s) \div 10000) <= Band(E.want, s) + E.want \div 100)
TGen == E.op = "gen" /\ E.same /\ E.attr /\ E.inside /\ NumberOK
Known(b) == H.kind = "rect" \/ BoxIn(H, b)
AreaShare(b) == LET a == Area(Cut(Cut(b, Box0), Whole(H))) IN
   IF C.kind = "dens" \/ BoxIn(H, Box0) THEN Ratio(a, Area(Box0)) ELSE Ratio(113 * a, Area113(H))
Absolute == C.kind = "dens" \/ BoxIn(H, Box0) \/ Box0 = Whole(H)
N0 == IF C.kind = "dens" THEN C.big ELSE E.n
AreasOK == \A j \in 1..Len(C.boxes) : Known(C.boxes[j]) =>
   IF Absolute THEN Near(E.cnt[j], N0, AreaShare(C.boxes[j]))
   ELSE \A i \in 1..Len(C.boxes) : LET a == Cut(C.boxes[i], Box0)  b == Cut(C.boxes[j], Box0) IN
           (Known(C.boxes[i]) /\ Area(Cut(a, b)) = 0 /\ Area(a) + Area(b) > 0) => LET m == E.cnt[i] + E.cnt[j] IN Near(E.cnt[i], m, Ratio(Area(a), Area(a) + Area(b)))
Pairs == << << <<-2, 2>>, <<-2, 2>> >>, << <<0, 2>>, <<-1, 3>> >>, << <<-4, -1>>, <<-4, 4>> >>, << <<1, 8>>, <<-8, 8>> >>, << <<-8, 8>>, <<1, 8>> >>, << <<-8, 0>>, <<-8, 0>> >> >>
BeamShare(P) ==
  LET B == C.beam
      wall(a, x, s, sg) == IF H.kind = "rect" THEN (2 * (sg * a - x)) \div s ELSE sg * 8
      gx == Between(P[1][1], P[1][2], wall(H.ax, B.x, B.sx, -1), wall(H.ax, B.x, B.sx, 1))
      gy == Between(P[2][1], P[2][2], wall(H.ay, B.y, B.sy, -1), wall(H.ay, B.y, B.sy, 1))
      bx == <<B.x + (P[1][1] * B.sx) \div 2, B.x + (P[1][2] * B.sx) \div 2, B.y + (P[2][1] * B.sy) \div 2, B.y + (P[2][2] * B.sy) \div 2>>
  IN ((100 - C.unif) * ((gx * gy) \div 10000) + C.unif * AreaShare(bx)) \div 100
BeamOK == \A j \in 1..Len(Pairs) : Near(E.beam[j], E.n, BeamShare(Pairs[j]))
TPlace == /\ E.op = "place" /\ E.out = 0
          /\ (C.kind = "gas" => BeamOK) /\ (C.kind # "gas" \/ C.unif = 100 => AreasOK)
\* velocities: components in thousandths of half the thermal speed, each particle with its own
TSpeed == /\ E.op = "speed"
          /\ IF E.full = 0 THEN E.max = 0
             ELSE /\ E.max <= 1001 /\ E.differ >= E.n - 2 - E.n \div 10
                  /\ (E.n >= 400 => \A x \in 1..3 : Abs(E.mean[x]) <= 4000 \div Isqrt(E.n, 0) + 1 /\ Abs(E.sq[x] - E.full) <= 2000 \div Isqrt(E.n, 0) + 1)
\* energies
BelowShare(j) == LET h == j - 5 IN
  CASE C.en.d = "lognormal" -> Phi(h)
    [] C.en.d = "gaussian" -> Between(-9, h, -C.en.m, 9)
    [] C.en.d = "rect" -> (h + 4) * 1250
    [] C.en.d = "mono" -> IF h > 0 THEN 10000 ELSE 0
    [] OTHER -> <<0, 3333, 5000, 6667, 8333>>[j]
EnergiesOK == E.pos = E.n /\ \A j \in 1..Len(E.below) : (C.en.d = "mono" /\ j = 5) \/ Near(E.below[j], E.n, BelowShare(j))
\* directions
AnglesOK == LET q == IF C.ang = "cosine_3D" THEN <<625, 2500, 5625>> ELSE <<318, 1340, 3386>> IN
  /\ E.inw = E.m /\ E.m > 0
  /\ IF C.ang = "normal_emission" THEN E.one = E.m
     ELSE /\ \A j \in 1..3 : Near(E.cosb[j], E.m, q[j])
          /\ Near(E.zpos, E.n, 5000) /\ Near(E.tpos, E.n, 5000) /\ E.differ >= E.n - E.n \div 10
\* places on the wall; direct photons within a beam of standard deviation 0.02 rad
Halves == \A j \in 1..Len(E.half) : Near(E.half[j], E.bins[j], 5000)
SectShare(j, out) == (1250 - (IF out /\ j \in {1, 8} THEN 175 ELSE 0))
PlacesOK ==
  CASE C.kind = "seg" -> LET s == SumSeq(LAMBDA j : C.p[j], Len(C.p)) IN
         \A j \in 1..Len(C.p) : LET b == E.bins[j] IN
            Near(b[1], E.n, (10000 * C.p[j]) \div s) /\ (C.p[j] = 0 => b[1] <= 1) /\ Near(b[2], b[1], 3333) /\ Near(b[3], b[1], 5000)
    [] C.kind = "all" /\ ~C.unif -> (\A j \in 1..3 : Near(E.bins[j], E.n, 100 * C.cdf.p[j]) /\ (C.cdf.p[j] = 0 => E.bins[j] <= 1)) /\ Halves /\ E.bins[1] + E.bins[2] + E.bins[3] >= E.n - 2
    [] C.kind = "all" -> \A j \in 1..8 : Near(E.sect[j], E.n, 1250)
    [] C.kind = "photo" /\ C.unif ->
         /\ Near(E.direct, E.n, 100 * (100 - C.refl) + (C.refl * 350) \div 100) /\ Near(E.core, E.n, ((100 - C.refl) * 6827 + C.refl * 64) \div 100)
         /\ \A j \in 1..8 : Near(E.sect[j], E.n, (C.refl * SectShare(j, TRUE)) \div 100)
         /\ E.direct + SumSeq(LAMBDA j : E.sect[j], 8) = E.n
    [] OTHER -> LET cd == CASE C.x0 = "left" -> C.cdfl [] C.x0 = "right" -> C.cdfr [] OTHER -> C.cdf0 IN
         /\ Near(E.direct, E.n, 100 * (100 - C.refl)) /\ Near(E.core, E.n, (100 - C.refl) * 68 + (100 - C.refl) \div 4)
         /\ (C.refl = 100 => E.direct = 0) /\ (C.refl = 0 => E.direct = E.n)
         /\ (\A j \in 1..3 : Near(E.bins[j], E.n, C.refl * cd.p[j])) /\ Halves
         /\ E.bins[1] + E.bins[2] + E.bins[3] + E.direct >= E.n - 2
TWall == E.op = "wall" /\ E.far = 0 /\ EnergiesOK /\ AnglesOK /\ PlacesOK
TFile == E.op = "file" /\ E.ok /\ E.same
\* a step of a simulation at time t (tenths): the sources of every cloud, for every beam, within the window of ionization
In2(s, x) == \E j \in 1..Len(s) : s[j] = x
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
TRun == /\ E.op = "run"
        /\ \A cl \in 1..C.nc : \A b \in 1..C.nb : Count(E.gas, <<cl, b>>) = (IF In2(C.gas, cl) /\ C.tion[cl] >= 0 /\ E.t < 10 * C.tion[cl] + 5 THEN 1 ELSE 0)
        /\ \A cl \in 1..C.nc : Count(E.pho, <<cl, 1>>) = (IF In2(C.photo, cl) THEN 1 ELSE 0)
        /\ \A j \in 1..Len(E.gas) : E.gas[j][1] \in 1..C.nc /\ E.gas[j][2] \in 1..C.nb
        /\ \A j \in 1..Len(E.pho) : E.pho[j][1] \in 1..C.nc /\ E.pho[j][2] = 1
TInit == k \in 1..NTraces /\ l = 1
TNext == /\ l <= Len(Ev) /\ (TGen \/ TPlace \/ TSpeed \/ TWall \/ TFile \/ TRun) /\ l' = l + 1 /\ UNCHANGED k
TSpec == TInit /\ [][TNext]_<<k, l>>
Marked == Mark(k, l)
Where == <<k, l>>
Accepted == Verdict
=============================================================================
