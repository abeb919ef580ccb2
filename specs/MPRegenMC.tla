----------------------------- MODULE MPRegenMC -----------------------------
EXTENDS MPRegen
CONSTANTS Cells, Charges
MCNext == \/ \E c \in Cells, ch \in Charges, k \in {1, 3} : Fill(c, ch, k)
          \/ /\ DOMAIN q # {}
             /\ LET r0 == IF Q < Ref0 * NAfter THEN Ref0 ELSE (Q + NAfter - 1) \div NAfter
                IN \E cnt \in [DOMAIN q -> 0..NAfter + 1] : Regen(cnt, r0)
CellX(c) == c
MCInv == RefFloor /\ UniformSize /\ NoBlowUp
Bound == Q <= 200
Spec == Init /\ [][MCNext]_vars
=============================================================================
