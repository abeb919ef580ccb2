------------------------------- MODULE TallyMC ------------------------------
(* All histories of impacts and resets: every histogram always holds exactly   *)
(* the charge (energy) that hit the wall since its own last reset.             *)
EXTENDS Tally, TLC
CONSTANTS N, Depth
VARIABLES tot, scrub, en, seg, due, dues, duee, n
vars == <<tot, scrub, en, seg, due, dues, duee, n>>
Imps == {[x |-> x, w |-> w, e |-> e, seg |-> s] : x \in {0, 400, 1000, 1700, 2000}, w \in {1, 2}, e \in {1, 3}, s \in 1..2}
Th == 2
Init == tot = Zero(N) /\ scrub = Zero(N) /\ en = Zero(N) /\ seg = Zero(2) /\ due = 0 /\ dues = 0 /\ duee = 0 /\ n = 0
\* e2: energy carried away by what is emitted
Impact(i, e2) == /\ tot' = Add(tot, N, << <<i.x, i.w>> >>) /\ scrub' = Add(scrub, N, IF i.e > Th THEN << <<i.x, i.w>> >> ELSE <<>>)
                 /\ en' = Add(en, N, << <<i.x, i.w * i.e>>, <<i.x, -e2>> >>) /\ seg' = Count(seg, 2, << <<i.seg, i.w>> >>)
                 /\ due' = due + i.w /\ dues' = dues + (IF i.e > Th THEN i.w ELSE 0) /\ duee' = duee + i.w * i.e - e2
Reset == \/ tot' = Zero(N) /\ due' = 0 /\ seg' = Zero(2) /\ UNCHANGED <<scrub, en, dues, duee>>
         \/ scrub' = Zero(N) /\ dues' = 0 /\ UNCHANGED <<tot, en, seg, due, duee>>
         \/ en' = Zero(N) /\ duee' = 0 /\ UNCHANGED <<tot, scrub, seg, due, dues>>
Next == n < Depth /\ n' = n + 1 /\ (Reset \/ \E i \in Imps, e2 \in {0, 1} : Impact(i, e2))
Spec == Init /\ [][Next]_vars
Agree == SumF(tot, N) = 1000 * due /\ SumF(scrub, N) = 1000 * dues /\ SumF(en, N) = 1000 * duee /\ SumF(seg, 2) = due
Positive == \A j \in 1..N : tot[j] >= 0 /\ scrub[j] >= 0 /\ (dues <= due => TRUE)
=============================================================================
