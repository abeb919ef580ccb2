------------------------------- MODULE Config -------------------------------
(* How the input files, the arguments of the constructor and the cloud and beam *)
(* files make a configuration, and which of them are refused.                   *)
(*                                                                              *)
(* A deck is  [sim, mach, sec, kw : parameter -> value,  ign : parameters,      *)
(*             clouds : sequence of (parameter -> value),                       *)
(*             beams : sequence of (parameter -> value), the first is the main] *)
(* where every function is partial: its domain is what is given there.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Default, Mandatory, CloudMandatory, CloudOptional, BeamDefault, BeamMandatory, Anywhere,
          Clash(_, _, _)        \* is a complete set of parameters (main, of every cloud, of every beam) refused
Optional == DOMAIN Default
Params == Optional \cup Mandatory
BeamParams == DOMAIN BeamDefault \cup BeamMandatory
Optics == {"betafx", "betafy", "Dx", "Dy"}
Hidden(n) == n \in {"_tmp", "__note"}      \* names starting with an underscore are not parameters
Names(f) == {n \in DOMAIN f : ~Hidden(n) /\ n \notin Anywhere}

\* ---- what a deck means
Files(d) == <<d.sim, d.mach, d.sec>>
Places(d, p) == {j \in 1..3 : p \in DOMAIN Files(d)[j]}
Given(d, p) == Files(d)[CHOOSE j \in Places(d, p) : TRUE][p]
Over(d) == {p \in DOMAIN d.kw : p \notin d.ign}
Value(d, p) == IF p \in Over(d) THEN d.kw[p] ELSE IF Places(d, p) # {} THEN Given(d, p) ELSE Default[p]
Main(d) == [p \in Params |-> Value(d, p)]
CloudValue(d, i, p) == IF p \in DOMAIN d.clouds[i] THEN d.clouds[i][p] ELSE Value(d, p)
CloudParams == CloudMandatory \cup CloudOptional
\* cloud 0 is the one of the main files
Cloud(d, i) == [p \in CloudParams |-> IF i = 0 THEN Value(d, p) ELSE CloudValue(d, i, p)]
\* optics missing in a beam file are those of the machine
BeamValue(d, b, p) == IF p \in DOMAIN b /\ (p \in Optics => b[p] # "None") THEN b[p] ELSE IF p \in Optics THEN Value(d, p) ELSE BeamDefault[p]
Beam(d, b) == [p \in BeamParams |-> BeamValue(d, b, p)]

Repeated(d) == \E p \in UNION {Names(f) : f \in {d.sim, d.mach, d.sec}} : Cardinality(Places(d, p)) > 1
Unknown(d) == \E f \in {d.sim, d.mach, d.sec} : \E p \in Names(f) : p \notin Params
Missing(d) == \E p \in Mandatory : Places(d, p) = {}
BadArgument(d) == \E p \in Over(d) : p \notin Params
BadCloud(d) == \E i \in 1..Len(d.clouds) : \/ \E p \in Names(d.clouds[i]) : p \notin CloudParams
                                          \/ \E p \in CloudMandatory : p \notin DOMAIN d.clouds[i]
BadBeam(d) == \E i \in 1..Len(d.beams) : \/ \E p \in Names(d.beams[i]) : p \notin BeamParams
                                        \/ \E p \in BeamMandatory : p \notin DOMAIN d.beams[i]
Malformed(d) == Repeated(d) \/ Unknown(d) \/ Missing(d) \/ BadArgument(d) \/ BadCloud(d) \/ BadBeam(d)
Refused(d) == IF Malformed(d) THEN TRUE ELSE Clash(Main(d), [i \in 1..(Len(d.clouds) + 1) |-> Cloud(d, i - 1)], [i \in 1..Len(d.beams) |-> Beam(d, d.beams[i])])

\* ---- the stages in which the files are read
VARIABLES deck, stage, acc, cfg, clouds, beams
cvars == <<deck, stage, acc, cfg, clouds, beams>>
Empty == [x \in {} |-> ""]
CInit(Decks) == deck \in Decks /\ stage = "main" /\ acc = Empty /\ cfg = Empty /\ clouds = <<>> /\ beams = <<>>
Refuse == stage' = "refused" /\ UNCHANGED <<deck, acc, cfg, clouds, beams>>
Merge(f, from, to) ==
  /\ stage = from
  /\ IF Names(f) \cap DOMAIN acc # {} THEN Refuse
     ELSE /\ acc' = f @@ acc
          /\ stage' = to
          /\ UNCHANGED <<deck, cfg, clouds, beams>>
ReadMain == stage = "main" /\ acc' = deck.sim /\ stage' = "mach" /\ UNCHANGED <<deck, cfg, clouds, beams>>
Check == /\ stage = "check"
         /\ IF ~(Names(acc) \subseteq Params) \/ ~(Mandatory \subseteq DOMAIN acc) THEN Refuse
            ELSE /\ cfg' = [p \in Params |-> IF p \in DOMAIN acc THEN acc[p] ELSE Default[p]]
                 /\ stage' = "over"
                 /\ UNCHANGED <<deck, acc, clouds, beams>>
Arguments == /\ stage = "over"
             /\ IF ~(Over(deck) \subseteq DOMAIN cfg) THEN Refuse
                ELSE /\ cfg' = [p \in Params |-> IF p \in Over(deck) THEN deck.kw[p] ELSE cfg[p]]
                     /\ stage' = "beams"
                     /\ UNCHANGED <<deck, acc, clouds, beams>>
ReadBeam == /\ stage = "beams"
            /\ Len(beams) < Len(deck.beams)
            /\ LET b == deck.beams[Len(beams) + 1]
               IN IF ~(Names(b) \subseteq BeamParams) \/ ~(BeamMandatory \subseteq DOMAIN b) THEN Refuse
                  ELSE LET full == [p \in BeamParams |-> IF p \in DOMAIN b THEN b[p] ELSE BeamDefault[p]]
                       IN /\ beams' = Append(beams, [p \in BeamParams |-> IF p \in Optics /\ full[p] = "None" THEN cfg[p] ELSE full[p]])
                          /\ UNCHANGED <<deck, stage, acc, cfg, clouds>>
BeamsRead == stage = "beams" /\ Len(beams) = Len(deck.beams) /\ stage' = "clouds" /\ UNCHANGED <<deck, acc, cfg, clouds, beams>>
ReadCloud == /\ stage = "clouds"
             /\ Len(clouds) < Len(deck.clouds) + 1
             /\ LET n == Len(clouds)
                IN IF n = 0 THEN clouds' = <<[p \in CloudParams |-> cfg[p]]>> /\ UNCHANGED <<deck, stage, acc, cfg, beams>>
                   ELSE LET c == deck.clouds[n]
                        IN IF ~(Names(c) \subseteq CloudParams) \/ ~(CloudMandatory \subseteq DOMAIN c) THEN Refuse
                           ELSE clouds' = Append(clouds, [p \in CloudParams |-> IF p \in DOMAIN c THEN c[p] ELSE clouds[1][p]]) /\ UNCHANGED <<deck, stage, acc, cfg, beams>>
Build == /\ stage = "clouds"
         /\ Len(clouds) = Len(deck.clouds) + 1
         /\ IF Clash(cfg, clouds, beams) THEN Refuse
            ELSE stage' = "built" /\ UNCHANGED <<deck, acc, cfg, clouds, beams>>
CNext == ReadMain \/ Merge(deck.mach, "mach", "sec") \/ Merge(deck.sec, "sec", "check") \/ Check \/ Arguments \/ ReadBeam \/ BeamsRead \/ ReadCloud \/ Build

\* ---- what the user relies on
AsGiven == stage = "built" => /\ cfg = Main(deck)
                              /\ Len(clouds) = Len(deck.clouds) + 1
                              /\ \A i \in 1..Len(clouds) : clouds[i] = Cloud(deck, i - 1)
                              /\ \A i \in 1..Len(beams) : beams[i] = Beam(deck, deck.beams[i])
RefusedIff == /\ stage = "built" => ~Refused(deck)
              /\ stage = "refused" => Refused(deck)
\* what is given is never lost, what is not given takes its default
NothingLost == stage = "built" => \A p \in Params : /\ p \in Over(deck) => cfg[p] = deck.kw[p]
                                                   /\ p \notin Over(deck) /\ Places(deck, p) = {} => cfg[p] = Default[p]
Ends == stage \in {"built", "refused"}
=============================================================================
