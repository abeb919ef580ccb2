----------------------------- MODULE MotionTrace ----------------------------
(* Recorded calls of the real trackers: every macroparticle placed at integer  *)
(* position x with velocity v and half kick g (own: through the tracker's own  *)
(* step, else with explicit substeps), out: where it was afterwards, in        *)
(* units of 1e-4.                                                              *)
EXTENDS Motion, TraceUtil
VARIABLES k, l
T == Traces[k]
Ev == T.ev
E == Ev[l]
C == T.cfg
U == 10000
Frac(rep, n, d) == AbsI(rep * d - U * n) <= 2 * d
OutBoris(p, o) == LET r == Call(Particle(p.x, p.v), C.f, p.c, C.q, E.n, C.h * C.m, p.g)
                  IN \A i \in 1..3 : Frac(o.x[i], r.x[i], r.d) /\ Frac(o.v[i], r.v[i], r.d)
Root(n) == IF \E b \in 0..40 : b * b = n THEN CHOOSE b \in 0..40 : b * b = n ELSE -1
\* pi/2 and (pi/2)^2/2
P2(n) == 15708 * n
Q2(n) == 12337 * n
OutTurn(p, o) ==
    LET B == FieldAt(C.f, p.x)
        b == Root(Dot(B, B))
        e == p.g
        kk == C.k
    IN IF b = 0
       THEN \A i \in 1..3 : /\ AbsI(o.v[i] - (U * p.v[i] - P2(kk * e[i]))) <= 3
                            /\ AbsI(o.x[i] - (U * p.x[i] + P2(kk * p.v[i]) - Q2(kk * kk * e[i]))) <= 3
       \* (other field strengths are compared with the leap-frog)
       ELSE b < 0 \/ b > 5 \/
            LET r == Turn(p.x, p.v, B, b, e, kk)
                b3 == b * b * b    b4 == b3 * b
            IN \A i \in 1..3 : /\ AbsI(o.v[i] * b3 - (U * r.vn[i] + P2(kk * r.vp[i]))) <= 3 * b3
                               /\ AbsI(o.x[i] * b4 - (U * r.xn[i] + P2(kk * r.xp[i]) + Q2(kk * kk * r.xq[i]))) <= 3 * b4
TCall == /\ E.op = "call" /\ Len(E.out) = Len(E.parts)
         /\ TRUE = \A j \in 1..Len(E.out) : IF C.meth \in {"boris", "multi"} THEN OutBoris(E.parts[j], E.out[j]) ELSE OutTurn(E.parts[j], E.out[j])
         /\ E.same      \* charges and last impact times are left alone
\* two ways to compute the same motion (differences in millionths)
TAgree == E.op = "agree" /\ TRUE = \A j \in 1..Len(E.dif) : E.dif[j] <= E.tol
\* invalid settings are refused
TRefuse == E.op = "refuse" /\ E.refused
TInit == k \in 1..NTraces /\ l = 1
TNext == l <= Len(Ev) /\ (TCall \/ TAgree \/ TRefuse) /\ l' = l + 1 /\ UNCHANGED k
Terminated == l > Len(Ev) /\ UNCHANGED <<k, l>>
TSpec == TInit /\ [][TNext \/ Terminated]_<<k, l>>
Marked == Mark(k, l)
Where == <<k, l>>
Accepted == Verdict
=============================================================================
