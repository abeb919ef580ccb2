------------------------------- MODULE MPRegen -------------------------------
(* Full regeneration of the macroparticles of a cloud (MP_system.py): the     *)
(* cloud is binned in phase-space cells and every cell is refilled with       *)
(* macroparticles of one common size.  A cell is abstracted to the charge it  *)
(* holds and to the number of macroparticles it is represented by.            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

CONSTANTS Ref0,           \* initial reference size
          NRegen, NLow,   \* regenerate above NRegen, or below NLow when the reference size has grown
          NAfter,         \* target number of macroparticles
          Tol,            \* rounding of the observed reference size
          XAbs(_),        \* distance of a cell from the centre of the chamber
          CutN, CutD      \* the outermost cells may be dropped while they hold less than CutN/CutD of the charge

VARIABLES q,     \* cell -> charge
          n,     \* cell -> number of macroparticles
          ref,   \* reference size
          last   \* what the last action was (for the invariants)
vars == <<q, n, ref, last>>

AbsI(a) == IF a < 0 THEN -a ELSE a
Sum(f) == MapThenSumSet(LAMBDA c : f[c], DOMAIN f)
Q == Sum(q)
NTot == Sum(n)

Triggered == NTot > NRegen \/ (NTot < NLow /\ ref > Ref0)

RefRule(r) == IF Q < Ref0 * NAfter THEN r = Ref0 ELSE AbsI(r * NAfter - Q) <= NAfter

(* cnt: macroparticles per cell after the regeneration; D: the cells dropped by the tail cut.  One unit of tolerance on *)
(* ref because it is observed as an integer.                                                                            *)
CellRule(charge, r, k) == /\ k * r > charge - r - Tol * k     \* at least floor(charge / ref) ...
                          /\ k * r < charge + r + Tol * k     \* ... and at most ceil(charge / ref)
RegenRel(cnt, r, D) ==
    /\ RefRule(r)
    /\ DOMAIN cnt = DOMAIN q
    /\ MapThenSumSet(LAMBDA c : q[c], D) * CutD < Max({1, Q * CutN})
    /\ \A c \in D : cnt[c] = 0
    /\ \A d \in D, c \in DOMAIN q \ D : XAbs(c) <= XAbs(d)     \* only the tails are cut
    /\ \A c \in DOMAIN q \ D : CellRule(q[c], r, cnt[c])

Regen(cnt, r) ==
    IF ~Triggered THEN UNCHANGED <<q, n, ref>> /\ last' = "kept"
    ELSE /\ \E D \in SUBSET { c \in DOMAIN q : cnt[c] = 0 /\ q[c] * CutD < Q * CutN } : RegenRel(cnt, r, D)
         /\ ref' = r /\ n' = cnt
         /\ q' = [c \in DOMAIN q |-> cnt[c] * r]
         /\ last' = "regen"

Fill(cell, charge, k) ==
    /\ cell \notin DOMAIN q /\ charge > 0
    /\ q' = [c \in DOMAIN q \cup {cell} |-> IF c = cell THEN charge ELSE q[c]]
    /\ n' = [c \in DOMAIN q \cup {cell} |-> IF c = cell THEN k ELSE n[c]]
    /\ last' = "fill" /\ UNCHANGED ref

Init == q = <<>> /\ n = <<>> /\ ref = Ref0 /\ last = "init"

RefFloor == ref >= Ref0
UniformSize == last = "regen" => \A c \in DOMAIN q : q[c] = n[c] * ref
NoBlowUp == last = "regen" => NTot <= NAfter + Cardinality(DOMAIN q)
(* The total changes by less than one macroparticle per cell plus the tail that may be cut. *)
ChargeKept == [][last' = "regen" =>
                 AbsI(Q' - Q) * CutD <= Cardinality(DOMAIN q) * (ref' + 1) * CutD + CutN * Q + NTot' * CutD]_vars
(* Statistical clause: m rounded up out of t, probability fn/fd, six standard deviations. *)
Unbiased(m, t, fn, fd) == (m * fd - t * fn) * (m * fd - t * fn) <= 36 * t * fn * (fd - fn)
=============================================================================
