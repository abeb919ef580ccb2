------------------------------ MODULE ConfigMC ------------------------------
(* A handful of parameters of every kind, all placements.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxGiven, Vals
MDefault == [o |-> "d", Dx |-> "0"]
MMandatory == {"m"}
MCloudMandatory == {"o"}
MCloudOptional == {"m"}
MBeamDefault == [Dx |-> "None"]
MBeamMandatory == {"b"}
MAnywhere == {"pi"}
MClash(M, cs, bs) == (M.o = "x" /\ M.m = "x") \/ (\E i \in 1..Len(cs) : cs[i].o = "bad") \/ (\E i \in 1..Len(bs) : bs[i].Dx = "bad")
VARIABLES deck, stage, acc, cfg, clouds, beams
C == INSTANCE Config WITH Default <- MDefault, Mandatory <- MMandatory, CloudMandatory <- MCloudMandatory, CloudOptional <- MCloudOptional,
                          BeamDefault <- MBeamDefault, BeamMandatory <- MBeamMandatory, Anywhere <- MAnywhere, Clash <- MClash
Fns(D, R) == UNION {[S -> R] : S \in SUBSET D}
FileFns == {f \in Fns({"m", "o", "u", "pi"}, Vals) : Cardinality(DOMAIN f) <= MaxGiven}
KwFns == {f \in Fns({"m", "o", "u"}, {"x", "bad"}) : Cardinality(DOMAIN f) <= 1}
Ign == {{}, {"o"}, {"u"}}
CloudFns == {f \in Fns({"m", "o", "u", "Dx"}, {"x", "bad"}) : Cardinality(DOMAIN f) <= 2}
BeamFns == {f \in Fns({"b", "Dx", "m"}, {"x", "bad", "None"}) : Cardinality(DOMAIN f) <= 2}
MInit == deck = C!Empty /\ stage = "choose" /\ acc = C!Empty /\ cfg = C!Empty /\ clouds = <<>> /\ beams = <<>>
ChooseDeck == /\ stage = "choose"
              /\ \E s \in FileFns, m \in FileFns, e \in FileFns : deck' = [sim |-> s, mach |-> m, sec |-> e]
              /\ stage' = "more"
              /\ UNCHANGED <<acc, cfg, clouds, beams>>
ChooseRest == /\ stage = "more"
              /\ \E k \in KwFns, g \in Ign, cl \in {<<>>} \cup {<<c>> : c \in CloudFns}, bm \in {<<[b |-> "x"]>>} \cup {<<f>> : f \in BeamFns} :
                    \* all placements in the files with some of the rest, and all of the rest with some placements
                    /\ \/ cl = <<>> /\ bm = <<[b |-> "x"]>>
                       \/ C!Names(deck.sim) = {"m"} /\ C!Names(deck.sec) = {} /\ C!Names(deck.mach) \subseteq {"o"} /\ (MaxGiven > 1 \/ (g = {} /\ DOMAIN k \subseteq {"o"}))
                    /\ deck' = [sim |-> deck.sim, mach |-> deck.mach, sec |-> deck.sec, kw |-> k, ign |-> g, clouds |-> cl, beams |-> bm]
              /\ stage' = "main"
              /\ UNCHANGED <<acc, cfg, clouds, beams>>
\* nothing is left half read: any other end of a behaviour is a deadlock
Done == C!Ends /\ UNCHANGED <<deck, stage, acc, cfg, clouds, beams>>
MSpec == MInit /\ [][ChooseDeck \/ ChooseRest \/ (stage \notin {"choose", "more"} /\ C!CNext) \/ Done]_<<deck, stage, acc, cfg, clouds, beams>>
AsGiven == C!AsGiven
RefusedIff == C!RefusedIff
NothingLost == C!NothingLost
=============================================================================
