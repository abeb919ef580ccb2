---------------------------- MODULE MPRegenTrace ----------------------------
(* Recorded full regenerations of the real MP_system, validated against MPRegen.  Each trace fills clusters of equal   *)
(* macroparticles, farther apart than a grid cell, and calls check_for_regeneration.                                   *)
EXTENDS MPRegen, TraceUtil
CONSTANTS Dx, Dy, Nv      \* upper bounds of the cell sizes (x, y), number of velocity cells
VARIABLES tr, l
tvars == <<vars, tr, l>>
T == Traces[tr]
Ev == T.ev[l]
Cl(c) == T.ev[c]          \* event c filled cell c
TraceXAbs(c) == AbsI(Cl(c).x)

VMax(f(_)) == Max({ f(c) : c \in DOMAIN q })
Cell(f(_)) == Max({1, (2 * VMax(f)) \div (Nv - 1) + 1})
Dvx == Cell(LAMBDA c : AbsI(Cl(c).vx))
Dvy == Cell(LAMBDA c : AbsI(Cl(c).vy))
Dvz == Cell(LAMBDA c : AbsI(Cl(c).vz))
\* no macroparticle ends up farther than one cell from where its charge was
Near(p, c) == /\ AbsI(p.x - Cl(c).x) <= Dx /\ AbsI(p.y - Cl(c).y) <= Dy
              /\ AbsI(p.vx - Cl(c).vx) <= Dvx /\ AbsI(p.vy - Cl(c).vy) <= Dvy /\ AbsI(p.vz - Cl(c).vz) <= Dvz
Count(P, c) == Cardinality({ i \in DOMAIN P : Near(P[i], c) })

Step ==
    CASE Ev.op = "fill" -> Fill(l, Ev.q, Ev.n)
      [] Ev.op = "setref" -> ref' = Ev.ref /\ UNCHANGED <<q, n>> /\ last' = "setref"
      [] Ev.op = "regen" ->
           LET P == Ev.parts
               cnt == [c \in DOMAIN q |-> Count(P, c)]
           IN IF ~Triggered
              THEN Ev.same /\ Regen(cnt, Ev.ref)
              ELSE /\ \A i \in DOMAIN P : /\ P[i].inside /\ P[i].tl = -1 /\ AbsI(P[i].nel - Ev.ref) <= 1
                                         /\ Cardinality({ c \in DOMAIN q : Near(P[i], c) }) = 1
                   /\ Len(P) = Ev.n
                   /\ Regen(cnt, Ev.ref)
                   /\ AbsI(Ev.spl * 2 - Ev.ref * 3) <= 5 /\ AbsI(Ev.cln * 4 - Ev.ref) <= 5
      [] Ev.op = "trials" -> Unbiased(Ev.m, Ev.t, Ev.fn, Ev.fd) /\ UNCHANGED vars

TraceInit == Init /\ tr \in 1..NTraces /\ l = 1 /\ Mark(tr, 1)
TraceNext == /\ l <= Len(T.ev) /\ Step
             /\ RefFloor'
             /\ tr' = tr /\ l' = l + 1 /\ Mark(tr, l + 1)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == Verdict
=============================================================================
