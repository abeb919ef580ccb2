------------------------------- MODULE Coupling -------------------------------
(* Bunches passing through a simulated cloud, slice by slice.                   *)
(*   slice = [n, d, inter, bunch, isl]  n particles, duration d, whether it      *)
(*   interacts with the cloud, its bunch and its number in the bunch             *)
(*   beam  = sequence of slices, the head first                                  *)
(*   C     = [mode, info, D, ref, ...]  whole bunches or single slices (with or  *)
(*   without information on bunches), longest step (0: none), target sub-step    *)
EXTENDS Integers, Sequences, FiniteSets
Ceil(a, b) == (a + b - 1) \div b
\* ---- a slice is one step of the cloud; a long slice without interaction is cut in equal pieces
Pieces(C, s) == IF C.D = 0 \/ s.d <= C.D THEN 1 ELSE Ceil(s.d, C.D)
Refused(C, s) == s.inter /\ Pieces(C, s) > 1
\* equal sub-steps next to the target: at least one, their number the nearest to d / (p ref)
SubSteps(C, s) == LET p == Pieces(C, s)  a == 2 * s.d + p * C.ref  b == 2 * p * C.ref IN
   IF s.d <= p * C.ref THEN {1} ELSE {a \div b} \cup (IF a % b = 0 THEN {a \div b - 1} ELSE {})
RECURSIVE PiecesFrom(_, _, _)
PiecesFrom(C, B, k) == IF k > Len(B) THEN <<>> ELSE [j \in 1..Pieces(C, B[k]) |-> <<k, j>>] \o PiecesFrom(C, B, k + 1)
\* a slice that may not pass ends the passage
Stop(C, B) == IF \E k \in 1..Len(B) : Refused(C, B[k]) THEN CHOOSE k \in 1..Len(B) : Refused(C, B[k]) /\ \A i \in 1..k - 1 : ~Refused(C, B[i]) ELSE 0
Passage(C, B) == PiecesFrom(C, IF Stop(C, B) = 0 THEN B ELSE SubSeq(B, 1, Stop(C, B) - 1), 1)
Acts(s) == s.inter /\ s.n > 0
\* ---- one mark per bunch: with its last slice for whole bunches, with its first for single slices with information
NewBunch(C, B, k, j) == j = 1 /\ (IF C.mode = "whole" THEN k = Len(B) ELSE C.info /\ (k = 1 \/ B[k].bunch # B[k - 1].bunch))
BunchOf(C, B, k) == IF C.mode = "slices" /\ C.info THEN B[k].bunch ELSE 0
\* ---- the cloud starts anew with every passage of whole bunches, or with the first slice of the first bunch
Anew(C, B) == C.mode = "whole" \/ (C.info /\ B[1].bunch = 0 /\ B[1].isl = 0)
\* the step (counted from 1) after which the particles of slice k receive the kick of the cloud; 0 for none
RECURSIVE StepOf(_, _, _)
StepOf(C, B, k) == IF k = 1 THEN 1 ELSE StepOf(C, B, k - 1) + Pieces(C, B[k - 1])
KickStep(C, B, k) == IF Acts(B[k]) THEN StepOf(C, B, k) ELSE 0
===============================================================================
