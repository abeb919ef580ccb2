------------------------------ MODULE ImpactGen -----------------------------
(* Random histories of wall interactions: a chamber, an emission model, the    *)
(* settings of the histograms, and steps: resets, then every macroparticle     *)
(* placed at p moves to q with charge w and energy e.                          *)
EXTENDS GeometryGen
CONSTANTS Steps, Parts
Models == <<"ecloud3d", "ecloud2d", "ecloudn", "absorber", "fp", "fp_norediff", "acc", "cos", "flat", "file", "nunif", "charging">>
Pick(s) == s[R(Len(s))]
InPt(C, N) == IF C.kind = "ellip" THEN EStart(C.a, C.b) ELSE Start(C.P, N)
Stay(C) == LET p == InPt(C, 4) q == InPt(C, 4) IN <<p, q>>
Move(C) == LET p == InPt(C, 4)
               q == IF C.kind = "ellip" THEN EEnd(C.a, C.b) ELSE End(C.P, p)
           IN <<p, q>>
Part(C) == LET m == IF P1(3) THEN Stay(C) ELSE Move(C)
           IN [p |-> m[1], q |-> m[2], w |-> R(9), e |-> IF P1(4) THEN R(20) ELSE R(200), vz |-> IF P1(2) THEN 0 ELSE Num(-1, 1)]
Hists == {"tot", "scrub", "en", "enline", "cos", "seg", "emit", "eseg", "segline", "life"}
Still(C) == LET m == Stay(C) IN [p |-> m[1], q |-> m[2], w |-> R(9), e |-> R(200), vz |-> 0]
\* sometimes a single macroparticle (the first one, or another) may reach the wall
Step(C, s) == LET lone == IF ~P1(5) THEN 0 ELSE IF P1(2) THEN ((s - 1) % Parts) + 1 ELSE R(Parts) IN
              [reset |-> [h \in Hists |-> P1(4)], ps |-> [j \in 1..Parts |-> IF lone = 0 \/ j = lone THEN Part(C) ELSE Still(C)], idle |-> P1(8)]
Shape(k, P, s) == IF k <= 3 THEN [None EXCEPT !.kind = "polyg", !.P = P, !.convex = (Convex(P) /\ ~P1(4)), !.cx = s[1], !.cy = s[2]]
                  ELSE IF k = 4 THEN [None EXCEPT !.kind = "rect", !.P = RectP(Num(2, 18), Num(2, 18))]
                  ELSE [None EXCEPT !.kind = "ellip", !.a = Num(3, 10), !.b = Num(3, 10)]
INext == /\ i' = i + 1
         /\ \E k \in {R(6)}, f \in {RadiusF(Num(2, 4))} : \E S0 \in {Take(f, 1)} :
            \E S \in {IF Star(S0) THEN S0 ELSE RectP(7, 5)} : \E H \in {IF P1(2) THEN Hull(S) ELSE S} : \E P \in {Rot(H, R(Len(H)))} :
            \E s \in {IF Ins(P) = {} THEN <<0, 0>> ELSE Best(P)} :
            IF s = <<0, 0>> THEN c' = None
            ELSE \E C0 \in {Shape(k, P, s)} : \E C \in {[C0 EXCEPT !.pts = <<>>]}, m \in {Pick(Models)}, D \in {R(4)}, nb \in {Num(3, 12)}, de \in {Num(5, 30)}, th \in {Num(5, 60)},
                    cw \in {Pick(<<50, 100, 250, 300>>)}, fl \in {[seg |-> P1(2), life |-> P1(2), ang |-> ~P1(4), eseg |-> P1(2)]} :
                 c' = [kind |-> C.kind, P |-> C.P, convex |-> C.convex, cx |-> C.cx, cy |-> C.cy, a |-> C.a, b |-> C.b, exact |-> TRUE,
                       model |-> IF m \in {"nunif", "charging"} /\ C.kind # "polyg" THEN "ecloud3d" ELSE m, noinc |-> Pick(<<0, 2>>),
                       D |-> D, nb |-> nb, de |-> de, th |-> th, cw |-> cw, nl |-> Num(3, 6), dl |-> R(3),
                       seg |-> fl.seg /\ C.kind # "ellip", life |-> fl.life, ang |-> fl.ang, eseg |-> fl.eseg /\ fl.seg /\ C.kind # "ellip",
                       split |-> Num(2, 6), steps |-> [j \in 1..Steps |-> Step(C, j)]]
ISpec == Init /\ [][INext]_vars
=============================================================================
