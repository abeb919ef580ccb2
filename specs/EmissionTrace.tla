---------------------------- MODULE EmissionTrace ---------------------------
(* Recorded batches of identical impacts on real surfaces.  Numbers that follow *)
(* from the model are compared directly; random outcomes within six standard    *)
(* deviations of what the model expects.                                        *)
EXTENDS Emission, TraceUtil
VARIABLES k, l, Q            \* charge of each segment, in electrons
T == Traces[k]
Ev == T.ev
E == Ev[l]
C0 == T.cfg
\* the surface of a segment
At(g) == IF C0.model \notin {"nunif", "charging"} THEN C0
         ELSE LET s == C0.segs[g + 1] IN
              [C0 EXCEPT !.del_max = IF s.dm < 0 THEN @ ELSE s.dm, !.R0 = IF s.R0 < 0 THEN @ ELSE s.R0, !.Emax = IF s.Em < 0 THEN @ ELSE s.Em]
Chg(g) == C0.model = "charging" /\ C0.segs[g + 1].chg
Frac(g) == IF Chg(g) THEN Clip(Dvd(Q[g + 1], C0.segs[g + 1].Qmax), 0, ONE) ELSE 0
Near(a, b) == Abs(a - b) <= 15 + Abs(b) \div 300
\* n of N when each has probability p
Band(n, N, p0) == LET p == Clip(p0, 0, ONE)
                      m == (N * p) \div ONE
                      d == Max2(Abs(n - m) - 4 - (N * 40) \div ONE, 0)
                      v == (m * (ONE - p)) \div ONE
                  IN d < 40000 /\ d * d <= 36 * v + 36
\* a mean of N values of variance v (in units of ONE^2)
Mean(x, m, v, N) == Abs(x - m) <= 25 \/ (Abs(x - m) - 25) * (Abs(x - m) - 25) <= 36 * (v \div N) + 36
AngleOK(C, s) == /\ s.cmin >= -1
                 /\ CASE C.angle = "cosine_3D" -> /\ Mean(s.c, 6667, 5560000, s.n) /\ Mean(s.t2, 2500, 5600000, s.n) /\ Mean(s.z2, 2500, 5600000, s.n)
                                                  /\ Band(s.cb[1], s.n, 3600) /\ Band(s.cb[2], s.n, 6400)
                      [] C.angle = "cosine_2D" -> /\ Mean(s.c, 7854, 4990000, s.n) /\ Mean(s.t2, 1667, 5600000, s.n) /\ Mean(s.z2, 1667, 5600000, s.n)
                                                  /\ Band(s.cb[1], s.n, 2000) /\ Band(s.cb[2], s.n, 4000)
                      [] C.angle = "normal_emission" -> s.c >= 9999 /\ s.cmin >= 9999
                 /\ Mean(s.t, 0, 25000000, s.n) /\ Mean(s.z, 0, 25000000, s.n)
\* energies with distribution function F and upper bound top (0.1 eV)
EnergyOK(C, s, top, F(_)) == /\ s.max <= 10 * top + 1
                             /\ \A j \in 1..Len(C.xs) : Band(s.below[j], s.n, F(C.xs[j]))
Emitted(C, s, top, F(_)) == s.n = 0 \/ (EnergyOK(C, s, top, F) /\ AngleOK(C, s))
TopLogn(C, e) == IF C.noinc = 2 THEN IF e < C.thr THEN e ELSE Min2(e, C.Eth) ELSE C.Eth
Specular(C, s) == s.n = 0 \/ (s.e[1] >= 10 * E.e - 1 /\ s.e[2] <= 10 * E.e + 1)

\* one emission event: elastic (one electron as charged as the model says) or equal parts
BatchEcl == LET C == At(E.seg)
                f == Frac(E.seg)
                d == Delta(C, E.e, E.ct)
                pe == PElast(C, E.e, E.ct)
                ye == YElast(C, E.e, E.ct, f)
                yt == YTrue(C, E.e, E.ct, f)
                lo == Parts(Max2(E.w * yt - 15 * E.w - (E.w * yt) \div 300, 0), C.th)
                hi == Parts(E.w * yt + 15 * E.w + (E.w * yt) \div 300, C.th)
            IN /\ E.el.n + E.tr.n + E.ab = E.N
               /\ d > 20 => E.ab = 0
               /\ E.el.n > 0 => Near(E.el.q[1], ye) /\ Near(E.el.q[2], ye)
               /\ E.tr.n > 0 => /\ Near(E.tr.q[1], yt) /\ Near(E.tr.q[2], yt)
                                /\ E.tr.m[1] >= lo /\ E.tr.m[2] <= hi /\ E.tr.m[1] = E.tr.m[2]
                                /\ E.tr.size <= C.th + 1
               /\ Specular(C, E.el)
               /\ d > 20 => Band(E.el.n, E.N, pe)
               /\ Emitted(C, E.rep, TopLogn(C, E.e), LAMBDA x : CdfLogn(C, E.e, x))
               /\ Emitted(C, E.new, TopLogn(C, E.e), LAMBDA x : CdfLogn(C, E.e, x))
BatchAbs == E.ab = E.N /\ E.el.n = 0 /\ E.tr.n = 0 /\ E.total = 0
\* energies of events with n electrons
BackTop(e) == e
MixOne(C, d, e, x) == LET pt == Mul(ONE - d.e - d.r, PTrue(C, d, 1))
                          b == IF C.fpene THEN 0 ELSE d.e
                      IN Dvd(Mul(b, CdfBack(C, e, x)) + Mul(d.r, CdfRedif(C, e, x)) + Mul(pt, CdfTrue(C, 1, e, x)), b + d.r + pt)
BatchFP == LET C == C0
               d == FP(C, E.e, E.ct)
               top == IF C.fpene THEN TopLogn(C, E.e) ELSE E.e
               one == E.nb[2] - E.el.n          \* single electrons that were not seen to be reflected
           IN /\ E.el.n + E.tr.n + E.ab = E.N /\ E.nb[1] = E.ab
              /\ E.total > 0 => E.unit[1] >= 9999 /\ E.unit[2] <= 10001
              /\ \A n \in 0..4 : n <= 3 \/ TRUE => Band(E.nb[n + 1], E.N, PNumber(C, d, n))
              /\ E.tr.m[2] <= C.M
              /\ IF C.fpene THEN Band(E.el.n, E.N, d.e) ELSE E.el.n = 0
              /\ Specular(C, E.el)
              /\ E.by[1].n > 0 => AngleOK(C, E.by[1]) /\ E.by[1].max <= 10 * Max2(top, E.e) + 1
                                  /\ EnergyOK(C, E.by[1], Max2(top, E.e), LAMBDA x : MixOne(C, d, E.e, x))
              /\ \A n \in 2..4 : E.by[n].n = 0 \/ C.cons \/ (EnergyOK(C, E.by[n], top, LAMBDA x : CdfTrue(C, n, E.e, x)) /\ AngleOK(C, E.by[n]))
              /\ C.cons => E.over.pair = 0
TBatch == /\ E.op = "batch" /\ E.stray = 0
          /\ E.tr.part[1] >= 9999 /\ E.tr.part[2] <= 10001
          /\ TRUE = (CASE C0.model = "fp" -> BatchFP
                       [] C0.model = "absorber" -> BatchAbs
                       [] OTHER -> BatchEcl)
          /\ E.cnt[1] = E.N * E.w /\ Abs(E.cnt[2] - E.total) <= 1
          /\ Q' = IF Chg(E.seg) THEN [Q EXCEPT ![E.seg + 1] = @ + E.total - E.N * E.w] ELSE Q
\* charge leaks away
Leak(g) == IF Chg(g) /\ C0.segs[g + 1].tau > 0 THEN Mul(Q[g + 1], Exp(-Dvd(E.dt, C0.segs[g + 1].tau))) ELSE Q[g + 1]
TEvol == E.op = "evol" /\ Q' = [g \in 1..4 |-> Leak(g - 1)]
\* curves extracted from the surface: fraction of the impinging charge emitted by each type of event; nothing is charged by them
Expect(C, f, e, ct) == LET p == PElast(C, e, ct) IN [el |-> Mul(p, YElast(C, e, ct, f)), tr |-> Mul(ONE - p, YTrue(C, e, ct, f)), p |-> p, ye |-> YElast(C, e, ct, f), yt |-> YTrue(C, e, ct, f)]
CurveEcl(x, y, e, ct) == LET o == Expect(At(1), Frac(1), e, ct) IN
                         /\ o.ye > 1000 => Band((E.N * x) \div o.ye, E.N, o.p)
                         /\ o.yt > 1000 => Band((E.N * y) \div o.yt, E.N, ONE - o.p)
CurveFP(e, ct, el, tr, rd, ab) == LET d == FP(C0, e, ct)
                                      m == Mul(ONE - d.e - d.r, ONE)
                                      RECURSIVE S(_)
                                      S(n) == IF n = 0 THEN 0 ELSE n * PTrue(C0, d, n) + S(n - 1)
                                      mt == Mul(m, S(C0.M))
                                  IN /\ Band((E.N * el) \div ONE, E.N, d.e)
                                     /\ Band((E.N * rd) \div ONE, E.N, d.r)
                                     /\ ab = 0
                                     /\ Mean(tr, mt, mt * (ONE + Lambda(d)), E.N)
TCurves == /\ E.op = "curves" /\ UNCHANGED Q
           /\ TRUE = \A a \in 1..2 : \A b \in 1..2 :
                IF C0.model = "fp" THEN CurveFP(E.es[b], E.cs[a], E.d.elast[a][b], E.d.true[a][b], E.d.rediff[a][b], E.d.absorb[a][b])
                ELSE CurveEcl(E.d.elast[a][b], E.d.true[a][b], E.es[b], E.cs[a])
           \* one entry per emitted macroparticle; reflected ones at the impact energy
           /\ E.grid = <<0, (125 * E.es[1]) \div 10, 101>> \/ Abs(E.grid[2] - (125 * E.es[1]) \div 10) <= 1
           /\ C0.model # "fp" => TRUE = \A a \in 1..2 : LET o == Expect(At(1), Frac(1), E.es[1], E.cs[a]) IN
                /\ o.ye > 20 \/ o.yt > 20 => Band(E.h.elast[a].n, E.N, o.p) /\ (E.h.elast[a].n > 0 => Abs(E.h.elast[a].mean - 10 * E.es[1]) <= 2)
                /\ o.yt > 20 => LET m == Parts(o.yt, ONE) IN o.yt % ONE < 60 \/ o.yt % ONE > ONE - 60 \/ E.h.true[a].n = m * (E.N - E.h.elast[a].n)
\* with conserve_energy no event emits more energy than the impact brought
TTotal == E.op = "total" /\ UNCHANGED Q /\ ~E.excess
TInit == k \in 1..NTraces /\ l = 1 /\ Q = [g \in 1..4 |-> 0]
TNext == l <= Len(Ev) /\ (TBatch \/ TEvol \/ TCurves \/ TTotal) /\ l' = l + 1 /\ UNCHANGED k
Terminated == l > Len(Ev) /\ UNCHANGED <<k, l, Q>>
TSpec == TInit /\ [][TNext \/ Terminated]_<<k, l, Q>>
Marked == Mark(k, l)
Where == <<k, l>>
Accepted == Verdict
=============================================================================
