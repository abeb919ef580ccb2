---------------------------- MODULE BeamClockMC ----------------------------
EXTENDS BeamClock, TLC, Json
CONSTANTS GapLists(_), Bs, Starts
VARIABLE printed
AxisOf(t0, g) == [k \in 1..Len(g) + 1 |-> t0 + SumSeq(SubSeq(g, 1, k - 1))]
Configs == { [t |-> AxisOf(t0, g), lam |-> [k \in 1..Len(g) + 1 |-> (3 * k + g[1]) % 5], B |-> b, fact |-> 2, coast |-> b % 3,
              DtIn |-> 7] : t0 \in Starts, g \in GapLists({1, 2, 4}), b \in Bs }
Short(S) == [1..4 -> S] \cup { [k \in 1..5 |-> a] : a \in S }
Long(S) == [1..7 -> S] \cup { [k \in 1..9 |-> a] : a \in S }
MCInit == Init(Configs) /\ printed = 0
MCNext == (Step \/ (Ended /\ UNCHANGED vars)) /\ UNCHANGED printed
MCSpec == MCInit /\ [][MCNext]_<<vars, printed>>
MCInv == InsidePass /\ AllVisited /\ PassBound
Emit == (i # 0) \/ PrintT("BEH " \o ToJson(cfg))
=============================================================================
