--------------------------- MODULE SpaceChargeMC ---------------------------
EXTENDS SpaceCharge, TLC, Json
CONSTANTS Gaps, Dts, Tons, Clouds, N
VARIABLE hist
Confs == { [dt |-> d, ton |-> o, clouds |-> c] : d \in Dts, o \in Tons, c \in Clouds }
MCInit == Init(Confs) /\ hist = <<>>
MaxGap == CHOOSE g \in Gaps : \A h \in Gaps : h <= g
MCNext == /\ Len(hist) < N
          /\ \E g \in Gaps, f \in BOOLEAN : LET tn == IF t < 0 THEN 0 ELSE t + g IN
               /\ Step(tn, f, [c \in 1..conf.clouds |-> tn])
               /\ hist' = Append(hist, [t |-> tn, force |-> f])
\* for the simulations of the real code forced recomputations are rarer
GenNext == /\ Len(hist) < N
           /\ \E g \in Gaps : LET tn == IF t < 0 THEN 0 ELSE t + g f == RandomElement(1..8) = 1 IN
               /\ Step(tn, f, [c \in 1..conf.clouds |-> tn])
               /\ hist' = Append(hist, [t |-> tn, force |-> f])
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
GenSpec == MCInit /\ [][GenNext]_<<vars, hist>>
\* all clouds are deposited at the same moment, the moment of the recomputation
SameMoment == used # <<>> => \A c \in 1..conf.clouds : used[c] = trec
\* the field is never older than one interval and one step once the space charge is on
Fresh == t > conf.ton + conf.dt + MaxGap => trec >= 0 /\ t - trec < conf.dt + MaxGap
\* nothing before the start time unless forced
OffBefore == (t <= conf.ton /\ \A j \in 1..Len(hist) : ~hist[j].force) => used = <<>>
\* not more often than the interval unless forced
NotTooOften == [][(trec' # trec /\ trec >= 0 /\ ~hist'[Len(hist')].force
                   /\ \A j \in 1..Len(hist) : ~hist[j].force) => trec' - trec >= conf.dt]_<<vars, hist>>
Emit == Len(hist) < N \/ PrintT("BEH " \o ToJson([conf |-> conf, steps |-> hist]))
=============================================================================
