------------------------------ MODULE TallyTrace ----------------------------
(* Recorded histories of the real impact manager: resets, then the impacts     *)
(* (imps) and what left the wall (ems), then all diagnostics.                  *)
EXTENDS Tally, TraceUtil
VARIABLES k, l, H, n
tvars == <<k, l, H, n>>
T == Traces[k]
Ev == T.ev
E == Ev[l]
C == T.cfg
Names == DOMAIN E.h
NB(h) == Len(E.h[h])
S0 == Ev[1]
Nx == Len(S0.grid)
Half == (Nx - 1) \div 2
Expected == {"tot", "scrub", "en", "enline"} \cup (IF C.ang THEN {"cos"} ELSE {}) \cup (IF C.seg THEN {"seg", "emit", "eseg"} ELSE {})
            \cup (IF C.eseg THEN {"segline"} ELSE {}) \cup (IF C.life THEN {"life"} ELSE {})
Len0(h) == CASE h \in {"tot", "scrub", "en"} -> Nx
             [] h = "enline" -> C.nb
             [] h = "cos" -> (1000 \div C.cw) + 1
             [] h \in {"seg", "emit", "eseg"} -> Len(T.P)
             [] h = "segline" -> C.nb * Len(T.P)
             [] h = "life" -> C.nl
\* nodes at the multiples of the step, covering the chamber; nothing counted yet
TShape == /\ E.op = "shape" /\ Names = Expected /\ E.cover /\ E.even
          /\ Nx % 2 = 1 /\ \A j \in 1..Nx : E.grid[j] = j - 1 - Half
          /\ Len(E.eng) = C.nb /\ \A j \in 1..C.nb : E.eng[j] = 1000 * C.de * (j - 1)
          /\ \A h \in Names : NB(h) = Len0(h) /\ \A j \in 1..NB(h) : E.h[h][j] = 0
          /\ H' = [h \in Names |-> Zero(Len0(h))] /\ n' = 0
All(i) == TRUE
X(i) == i.x + 1000 * Half
EnPos(i) == Min2((1000 * i.e) \div C.de, 1000 * (C.nb - 1))
\* (thousandths of electrons; thousandths of charge * eV)
Upd(h, I, M) == CASE h = "tot" -> Sub(I, All, LAMBDA i : <<X(i), i.w>>)
                  [] h = "scrub" -> Sub(I, LAMBDA i : i.e > C.th, LAMBDA i : <<X(i), i.w>>)
                  [] h = "enline" -> Sub(I, All, LAMBDA i : <<EnPos(i), i.w>>)
                  [] h = "cos" -> Sub(I, All, LAMBDA i : <<(100 * i.c) \div C.cw, i.w>>)
                  [] h = "life" -> Sub(I, LAMBDA i : i.life >= 0, LAMBDA i : <<(1000 * i.life) \div C.dl, i.w>>)
\* the energy left at the wall
Dose(h0, I, M) == LET a == Add(h0, Nx, Sub(I, All, LAMBDA i : <<X(i), i.w * i.e>>))
                      Part(m, j) == ((m.ee \div 10) * Share(X(m), Nx, j)) \div 100
                      RECURSIVE Less(_, _)
                      Less(h, i) == IF i > Len(M) THEN h ELSE Less([j \in 1..Nx |-> h[j] - Part(M[i], j)], i + 1)
                  IN Less(a, 1)
New(h, I, M, h0) == CASE h \in {"tot", "scrub", "enline", "cos", "life"} -> Add(h0, Len0(h), Upd(h, I, M))
                      [] h = "en" -> Dose(h0, I, M)
                      [] h = "seg" -> Count(h0, Len0(h), Sub(I, All, LAMBDA i : <<i.seg + 1, 1000 * i.w>>))
                      [] h = "emit" -> Count(h0, Len0(h), Sub(M, All, LAMBDA m : <<m.seg + 1, m.w>>))
                      [] h = "eseg" -> Count(Count(h0, Len0(h), Sub(I, All, LAMBDA i : <<i.seg + 1, 1000 * i.w * i.e>>)), Len0(h), Sub(M, All, LAMBDA m : <<m.seg + 1, -m.ee>>))
                      [] h = "segline" -> LET W(s) == Add([j \in 1..C.nb |-> h0[s * C.nb + j]], C.nb, Sub(I, LAMBDA i : i.seg = s, LAMBDA i : <<EnPos(i), i.w>>))
                                              all == [s \in 0..(Len(T.P) - 1) |-> W(s)]
                                          IN [j \in 1..Len0(h) |-> all[(j - 1) \div C.nb][((j - 1) % C.nb) + 1]]
Rst(h) == IF \E j \in 1..Len(E.reset) : E.reset[j] = h THEN Zero(Len0(h)) ELSE H[h]
TolC == 6 + 6 * n'
TolE == 200 + 1200 * n'
TolOf(h) == IF h \in {"en", "eseg"} THEN TolE ELSE TolC
HistOK == TRUE = \A h \in Names : Len(E.h[h]) = Len(H'[h]) /\ \A j \in 1..Len(E.h[h]) : Abs(E.h[h][j] - H'[h][j]) <= TolOf(h)
SumOf(s, F(_)) == SumS(Sub(s, All, LAMBDA i : <<0, F(i)>>), 1)
TStep == /\ E.op = "step" /\ Names = Expected
         /\ n' = n + Len(E.imps) + Len(E.ems)
         /\ H' = [h \in Names |-> New(h, E.imps, E.ems, Rst(h))]
         /\ HistOK
         /\ Abs(E.cn.ni - SumOf(E.imps, LAMBDA i : 1000 * i.w)) <= 2
         /\ Abs(E.cn.ei - SumOf(E.imps, LAMBDA i : 1000 * i.w * i.e)) <= 20
         /\ Abs(E.cn.ne - SumOf(E.ems, LAMBDA m : m.w)) <= 2 + Len(E.ems)
         /\ Abs(E.cn.ee - SumOf(E.ems, LAMBDA m : m.ee)) <= 20 + Len(E.ems)
\* no particles at all: the counters of the step are zero
TIdle == /\ E.op = "idle" /\ Names = Expected /\ E.left = 0
         /\ n' = n /\ H' = [h \in Names |-> Rst(h)] /\ HistOK
         /\ E.cn.ni = 0 /\ E.cn.ei = 0 /\ E.cn.ne = 0 /\ E.cn.ee = 0
\* periods of a simulation: charges relative to the impinging charge (in millionths)
TRun == E.op = "run" /\ TRUE = (\A j \in 1..Len(E.dif) : Abs(E.dif[j]) <= E.tol) /\ UNCHANGED <<H, n>>
TInit == k \in 1..NTraces /\ l = 1 /\ H = [h \in {} |-> <<>>] /\ n = 0
TNext == l <= Len(Ev) /\ (TShape \/ TStep \/ TIdle \/ TRun) /\ l' = l + 1 /\ UNCHANGED k
Terminated == l > Len(Ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext \/ Terminated]_tvars
Marked == Mark(k, l)
Where == <<k, l>>
Accepted == Verdict
=============================================================================
