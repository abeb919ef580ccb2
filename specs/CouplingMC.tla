----------------------------- MODULE CouplingMC -----------------------------
(* The interface as it works (a loop over slices, sub-slices and turns), for    *)
(* all short bunches and histories; Coupling states what it has to give.        *)
EXTENDS Coupling, TLC
CONSTANTS MaxSlices, MaxTurns, MaxD, Modes
VARIABLES C, B, ph, k, j, cloud, field, kicked, seen, turn, frozen, map, marks, bun, reinits, err
vars == <<C, B, ph, k, j, cloud, field, kicked, seen, turn, frozen, map, marks, bun, reinits, err>>
Slices(c) == {s \in [n : {0, 1}, d : 1..MaxD, inter : BOOLEAN, bunch : {0, 1}, isl : {0, 1}] :
                (c.mode = "whole" => s.inter) /\ (c.mode = "whole" \/ ~c.info => s.bunch = 0 /\ s.isl = 0)}
Beams(c) == {b \in UNION {[1..m -> Slices(c)] : m \in 1..MaxSlices} :
               c.mode = "slices" /\ c.info => (b[1].bunch = 0 /\ b[1].isl = 0 /\ \A i \in 2..Len(b) : b[i].bunch >= b[i - 1].bunch /\ (b[i].isl = 0 <=> b[i].bunch # b[i - 1].bunch))}
Init == /\ C \in {c \in [mode : Modes, info : BOOLEAN, D : {0, 2}, ref : {1}] : c.mode = "whole" => ~c.info}
        /\ B = <<>> /\ ph = "idle" /\ k = 0 /\ j = 0 /\ cloud = <<>> /\ field = <<>> /\ kicked = <<>> /\ seen = <<>> /\ turn = 0 /\ frozen = FALSE /\ map = <<>> /\ marks = <<>> /\ bun = -1
        /\ reinits = 0 /\ err = FALSE
\* a new start: the initial cloud and its own field, nothing observed
Reinit == cloud' = <<>> /\ field' = <<>> /\ seen' = <<>> /\ bun' = -1 /\ reinits' = reinits + 1
Start == /\ ph = "idle" /\ ~frozen /\ turn < MaxTurns /\ ~err
         /\ B' \in Beams(C) /\ ph' = "slice" /\ k' = 1 /\ j' = 1 /\ kicked' = [i \in 1..Len(B') |-> <<>>] /\ marks' = <<>> /\ turn' = turn + 1
         /\ IF C.mode = "whole" THEN Reinit ELSE UNCHANGED <<cloud, field, seen, bun, reinits>>
         /\ UNCHANGED <<C, frozen, map, err>>
\* information: the first slice of all starts anew
Look == /\ ph = "slice" /\ j = 1
        /\ IF Refused(C, B[k]) THEN err' = TRUE /\ ph' = "idle" /\ UNCHANGED <<cloud, field, seen, bun, reinits>>
           ELSE /\ err' = FALSE /\ ph' = "piece"
                /\ IF C.mode = "slices" /\ C.info /\ B[k].bunch = 0 /\ B[k].isl = 0 THEN Reinit ELSE UNCHANGED <<cloud, field, seen, bun, reinits>>
        /\ UNCHANGED <<C, B, k, j, kicked, turn, frozen, map, marks>>
\* one step: the cloud moves in the field of the slice and its own, its field is computed, the slice gets its kick
Piece == /\ ph = "piece"
         /\ LET s == B[k]
                b == IF C.mode = "slices" /\ C.info THEN s.bunch ELSE 0
                new == IF C.mode = "whole" THEN k = Len(B) /\ j = 1 ELSE C.info /\ j = 1 /\ b > bun
                c2 == Append(cloud, <<IF Acts(s) THEN k ELSE 0, s.d, Pieces(C, s), field>>)
            IN /\ cloud' = c2 /\ field' = Append(field, Len(c2))
               /\ kicked' = IF s.inter THEN [kicked EXCEPT ![k] = IF s.n > 0 THEN Append(@, Len(seen) + 1) ELSE @] ELSE kicked
               /\ seen' = Append(seen, <<turn, k, j>>) /\ bun' = b
               /\ marks' = IF new THEN Append(marks, <<b, k, j>>) ELSE marks
               /\ IF j < Pieces(C, s) THEN j' = j + 1 /\ k' = k /\ ph' = "piece"
                  ELSE j' = 1 /\ k' = k + 1 /\ ph' = IF k < Len(B) THEN "slice" ELSE "done"
         /\ UNCHANGED <<C, B, turn, frozen, map, reinits, err>>
Done == ph = "done" /\ ph' = "idle" /\ UNCHANGED <<C, B, k, j, cloud, field, kicked, seen, turn, frozen, map, marks, bun, reinits, err>>
\* the recorded fields, last first, take the place of the cloud (recorded for whole turns of one step per slice)
Freeze == /\ ph = "idle" /\ turn > 0 /\ ~frozen /\ ~err /\ Len(B) > 0 /\ Anew(C, B) /\ \A i \in 1..Len(B) : Pieces(C, B[i]) = 1
          /\ frozen' = TRUE /\ map' = [i \in 1..Len(seen) |-> seen[Len(seen) + 1 - i]] /\ UNCHANGED <<C, B, ph, k, j, cloud, field, kicked, seen, turn, marks, bun, reinits, err>>
Next == Start \/ Look \/ Piece \/ Done \/ Freeze
Spec == Init /\ [][Next]_vars
\* ---- what Coupling says
Made == ph = "done"
Off == IF Anew(C, B) THEN 0 ELSE Len(seen) - Len(Passage(C, B))
InOrder == Made => [i \in 1..Len(Passage(C, B)) |-> seen[Off + i]] = [i \in 1..Len(Passage(C, B)) |-> <<turn, Passage(C, B)[i][1], Passage(C, B)[i][2]>>]
OnlyThis == Made /\ Anew(C, B) => Len(seen) = Len(Passage(C, B))
Kicks == Made => \A i \in 1..Len(B) : kicked[i] = IF KickStep(C, B, i) = 0 THEN <<>> ELSE <<Off + KickStep(C, B, i)>>
Whole == Made => \A i \in 1..Len(B) : B[i].inter => Pieces(C, B[i]) = 1
Bunches == IF C.mode = "slices" /\ C.info THEN {B[i].bunch : i \in 1..Len(B)} ELSE IF C.mode = "whole" THEN {0} ELSE {}
OneMark == Made => /\ Len(marks) = Cardinality(Bunches) /\ {marks[i][1] : i \in 1..Len(marks)} = Bunches
                   /\ \A i \in 1..Len(marks) : NewBunch(C, B, marks[i][2], marks[i][3])
                   /\ \A p \in 1..Len(Passage(C, B)) : NewBunch(C, B, Passage(C, B)[p][1], Passage(C, B)[p][2]) => \E i \in 1..Len(marks) : <<marks[i][2], marks[i][3]>> = Passage(C, B)[p]
\* the field a cloud moves in is its own
Own == \A i \in 1..Len(cloud) : Len(cloud[i][4]) = i - 1
Same == Len(cloud) = Len(seen)
Stops == err <=> (Len(B) > 0 /\ ph = "idle" /\ Stop(C, B) # 0)
\* slice i of n (from the tail) of a frozen cloud is the slice that was then i-th from the tail
Frozen == frozen => /\ Len(map) = Len(B) /\ \A i \in 1..Len(B) : map[Len(B) + 1 - i][2] = i
Subs == \A s \in Slices(C) : \A m \in SubSteps(C, s) : m >= 1 /\ (s.d > Pieces(C, s) * C.ref => 2 * (m * Pieces(C, s) * C.ref - s.d) \in -(Pieces(C, s) * C.ref)..(Pieces(C, s) * C.ref))
Inv == InOrder /\ OnlyThis /\ Kicks /\ Whole /\ OneMark /\ Own /\ Same /\ Stops /\ Frozen
Static == Subs
=============================================================================
