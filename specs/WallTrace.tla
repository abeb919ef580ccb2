------------------------------ MODULE WallTrace -----------------------------
(* Recorded wall interactions of the real impact manager: what became of the   *)
(* macroparticle that moved from p to q (rows), and the new ones (par: the     *)
(* rows at whose position it appeared).                                        *)
EXTENDS GeometryTrace
ETH == 3500      \* largest emitted energy of the models (0.01 eV)
InwardEll(r, v) == v[1] * r.o[1] * C.b * C.b + v[2] * r.o[2] * C.a * C.a 
                   <= (Abs(v[1]) + Abs(r.o[1])) * C.b * C.b + (Abs(v[2]) + Abs(r.o[2])) * C.a * C.a
InwardEdge(v, h) == LET a == P[h.i]  b == Next1(P, h.i)  ex == b[1] - a[1]  ey == b[2] - a[2]
                    IN Cross(ex, ey, v[1], v[2]) >= -(3 * (Abs(ex) + Abs(ey)))
AtWall(r) == /\ r.off <= 20
             /\ IF Ell THEN NotBeyond(r.o) /\ BeyondSoon(r.o3)
                ELSE \E h \in May(r.p, r.q) : FracOK(r.f, h)
\* (at a vertex the wall has no direction)
Inwards(r, v) == IF Ell THEN InwardEll(r, v) ELSE \E h \in May(r.p, r.q) : FracOK(r.f, h) /\ (AtVertex(h, r.p, r.q) \/ InwardEdge(v, h))
\* Furman-Pivi and the "no increase" setting never emit more than the impinging energy
Strict == C.model \in {"fp", "fp_norediff"} \/ C.noinc = 2
EnergyOK(e, e0) == IF Strict THEN e <= e0 + 1 ELSE e <= Max2(e0, ETH) + 1
Processed(r) == /\ ~r.same \/ ~r.live
                /\ ~r.still
                /\ r.live => AtWall(r) /\ Inwards(r, r.v) /\ EnergyOK(r.e, r.e0)
                /\ r.t = IF C.life THEN E.tt ELSE r.t0
InQ(r) == IF Ell THEN EInside(r.q, C.a, C.b) ELSE Inside(r.q, P)
RowOK(r) == IF InQ(r) THEN r.same ELSE IF Strictly(r.q) THEN Processed(r) ELSE r.same \/ Processed(r)
\* (impacts may coincide: any of them)
NewOK(n) == /\ n.live /\ n.t = E.tt
            /\ \E i \in 1..Len(n.par) : LET r == E.rows[n.par[i]] IN ~InQ(r) /\ r.live /\ AtWall(r) /\ Inwards(r, n.v) /\ EnergyOK(n.e, r.e0)
WStep == /\ E.op = "step" /\ E.beyond
         /\ TRUE = \A j \in 1..Len(E.rows) : RowOK(E.rows[j])
         /\ TRUE = \A j \in 1..Len(E.new) : NewOK(E.new[j])
\* one step of a simulation, counted by the driver
WRun == /\ E.op = "run"
        /\ E.outside = 0 /\ E.touched = 0 /\ E.missed = 0 /\ E.orphans = 0 /\ E.outwards = 0 /\ E.bad = 0
WNext == l <= Len(Ev) /\ (WStep \/ WRun) /\ l' = l + 1 /\ UNCHANGED k
WSpec == TInit /\ [][WNext \/ Terminated]_<<k, l>>
=============================================================================
