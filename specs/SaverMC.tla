------------------------------ MODULE SaverMC ------------------------------
(* All schedules of a few steps: step lengths, recomputations and saving      *)
(* intervals; complete schedules are printed and drive real simulations.      *)
EXTENDS Saver, TLC, Json
CONSTANTS Gaps, B, N, Decs, Ens, Lifes, Everys, Obs, ScEvery
SmallObs == { <<>>, <<2, 3, 9>> }
GenObs == { <<>>, <<2, 3, 9>>, <<0, 0, 30, 31>> }
Confs == { [dec |-> d, dtref |-> 2, dten |-> e, dtlife |-> l, every |-> v, tobs |-> o, tsim |-> <<>>]
           : d \in Decs, e \in Ens, l \in Lifes, v \in Everys, o \in Obs }
MCInit == Init(Confs)
Val(t) == [i |-> <<t>>, a |-> <<1 + (t % 3)>>]
MCNext == /\ Len(hist) < N
          /\ \E g \in Gaps :
               LET t == IF hist = <<>> THEN 0 ELSE now.t + g
                   p == t \div B
               IN Step(t, p > now.pass, p, (Len(hist) % ScEvery) = 0, [c \in Chans |-> Val(t)], <<t>>, TRUE)
MCSpec == MCInit /\ [][MCNext]_vars
Emit == Len(hist) < N \/ PrintT("BEH " \o ToJson([conf |-> conf, t |-> [h \in 1..Len(hist) |-> hist[h].t]]))
=============================================================================
