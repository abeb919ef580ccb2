------------------------------- MODULE MPStore -------------------------------
(* The macroparticle store of one cloud (MP_system.py).                       *)
(*                                                                            *)
(* A macroparticle is abstracted to a record [id, nel, tl]: id names its      *)
(* phase-space row (x, y, z, vx, vy, vz bit for bit), nel is its charge and   *)
(* tl its time of last impact.  The store is a set of such records.  Actions  *)
(* whose outcome depends on random numbers take the outcome as a parameter    *)
(* (a "witness") and constrain it; TLC enumerates the witnesses when it       *)
(* checks the specification, a recorded execution supplies them when it is    *)
(* validated.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

CONSTANTS Ref0,               \* initial reference size
          FSn, FSd,           \* fact_split  = FSn / FSd
          FCn, FCd,           \* fact_clean  = FCn / FCd
          SoftTh, SoftAfter,  \* soft regeneration: threshold and target
          AsyncTh, AsyncAfter,
          Cap                 \* allocated length of the store

VARIABLES mp,      \* the macroparticles
          ref,     \* reference size
          spl, cln,\* split and clean thresholds
          exact,   \* no rescaling so far: all charges are exact multiples of the unit
          ledger,  \* charge that must be in the store
          slack    \* rounding (units) accumulated by the observation of rescaled charges

vars == <<mp, ref, spl, cln, exact, ledger, slack>>

AbsI(a) == IF a < 0 THEN -a ELSE a
SumNel(S) == MapThenSumSet(LAMBDA p : p.nel, S)
Ids(S) == { p.id : p \in S }
N == Cardinality(mp)
Rows(S) == Cardinality(Ids(S)) = Cardinality(S)
ById(S, i) == CHOOSE p \in S : p.id = i

Thresholds(r, s, c, amb) ==      \* thresholds follow the reference size
    /\ AbsI(s * FSd - r * FSn) <= amb * (FSn + FSd)
    /\ AbsI(c * FCd - r * FCn) <= amb * (FCn + FCd)

TypeOK == /\ Rows(mp) /\ N <= Cap /\ \A p \in mp : p.nel >= 0 /\ p.id > 0

Init == /\ mp = {} /\ ref = Ref0 /\ spl = (Ref0 * FSn) \div FSd /\ cln = (Ref0 * FCn) \div FCd
        /\ exact = TRUE /\ ledger = 0 /\ slack = 0

Amb == IF exact THEN 0 ELSE 1
KeepRef == UNCHANGED <<ref, spl, cln>>

------------------------------------------------------------------------------
(* New macroparticles are appended; nothing else changes. *)
Add(P) == /\ N + Cardinality(P) <= Cap
          /\ Ids(P) \cap Ids(mp) = {} /\ Rows(P)
          /\ mp' = mp \cup P
          /\ ledger' = ledger + SumNel(P)
          /\ KeepRef /\ UNCHANGED <<exact, slack>>

(* More macroparticles than fit: the request is refused, the store is as before. *)
AddOverflow(k) == /\ N + k > Cap /\ UNCHANGED vars

(* The store is replaced by a saved set of macroparticles. *)
Load(P) == /\ Cardinality(P) <= Cap /\ Rows(P)
           /\ mp' = P
           /\ ledger' = SumNel(P) /\ slack' = 0 /\ KeepRef /\ UNCHANGED exact

(* Uniform initial distribution of dn charges: floor or ceil of dn/ref new     *)
(* macroparticles of the reference size, never hit a wall (tl = -1).           *)
AddUniform(dn, P) ==
    /\ N + Cardinality(P) <= Cap
    /\ Rows(P) /\ Ids(P) \cap Ids(mp) = {}
    /\ \A p \in P : AbsI(p.nel - ref) <= 0 /\ p.tl = -1
    /\ \/ Cardinality(P) = dn \div ref
       \/ Cardinality(P) = dn \div ref + 1 /\ (dn % ref # 0 \/ ~exact)
    /\ mp' = mp \cup P
    /\ ledger' = ledger + SumNel(P)
    /\ KeepRef /\ UNCHANGED <<exact, slack>>

SetRef(v, s, c) == /\ ref' = v /\ spl' = s /\ cln' = c
                   /\ Thresholds(v, s, c, IF exact THEN 0 ELSE 1)
                   /\ UNCHANGED <<mp, exact, ledger, slack>>

------------------------------------------------------------------------------
(* Cleaning removes exactly the macroparticles smaller than the threshold;     *)
(* the others keep their row, charge and tl.  An emptied store goes back to    *)
(* the initial reference size.                                                 *)
CleanRel(M, K) ==
    /\ K \subseteq M
    /\ \A p \in M : /\ (p.nel < cln - Amb => p \notin K)
                    /\ (p.nel >= cln + Amb => p \in K)
CleanRefs(K, r, s, c) ==
    IF K = {} THEN r = Ref0 /\ Thresholds(r, s, c, 0) ELSE r = ref /\ s = spl /\ c = cln

Clean(K, r, s, c) ==
    /\ CleanRel(mp, K) /\ CleanRefs(K, r, s, c)
    /\ mp' = K /\ ref' = r /\ spl' = s /\ cln' = c
    /\ ledger' = ledger - SumNel(mp \ K)
    /\ UNCHANGED <<exact, slack>>

(* Soft regeneration to about t macroparticles: a random subset survives, its  *)
(* charges are rescaled by one common factor so that the total is unchanged.   *)
SoftRel(M, t, K, r) ==
    LET Q  == SumNel(M)
        S  == { p \in M : p.id \in Ids(K) }
        Qs == SumNel(S)
        n  == Cardinality(M)
        k  == Cardinality(K)
    IN /\ Rows(K) /\ Ids(K) \subseteq Ids(M)
       /\ \A p \in K : LET o == ById(M, p.id)
                       IN /\ p.tl = o.tl
                          /\ AbsI(p.nel * Qs - o.nel * Q) <= Qs + Q + (p.nel + o.nel) * n
       \* six standard deviations of the binomial number of survivors
       /\ (k - t) * (k - t) * n <= 36 * t * (n - t)
       /\ IF Q < Ref0 * t THEN r = Ref0 ELSE AbsI(r * t - Q) <= t + n

Soft(t, K, r, s, c) ==
    IF N <= t THEN UNCHANGED vars
    ELSE /\ K # {} => AbsI(SumNel(K) - SumNel(mp)) <= N + Cardinality(K)
         /\ SoftRel(mp, t, K, r)
         /\ Thresholds(r, s, c, 1)
         /\ mp' = K /\ ref' = r /\ spl' = s /\ cln' = c
         /\ exact' = FALSE
         \* nobody survived: the charge is lost (possible for tiny targets only, probability < exp(-t))
         /\ ledger' = IF K = {} THEN 0 ELSE ledger
         /\ slack' = IF K = {} THEN 0 ELSE slack + N + Cardinality(K)

CheckSoft(K, r, s, c) == IF N > SoftTh THEN Soft(SoftAfter, K, r, s, c) ELSE UNCHANGED vars

(* Asynchronous clean and regeneration, at any time step. *)
CheckAsync(K, r, s, c) ==
    IF N <= AsyncTh THEN UNCHANGED vars
    ELSE \E C \in (IF exact THEN { { p \in mp : p.nel >= cln } }
                   ELSE { X \in { { p \in mp : p.nel >= cln + 1 } \cup Y :
                                  Y \in SUBSET { p \in mp : AbsI(p.nel - cln) <= 1 } } : TRUE }) :
         IF Cardinality(C) <= AsyncTh
         THEN /\ K = C /\ CleanRefs(K, r, s, c)
              /\ mp' = K /\ ref' = r /\ spl' = s /\ cln' = c
              /\ ledger' = ledger - SumNel(mp \ C) /\ UNCHANGED <<exact, slack>>
         ELSE /\ SoftRel(C, AsyncAfter, K, r) /\ Thresholds(r, s, c, 1)
              /\ K # {} => AbsI(SumNel(K) - SumNel(C)) <= Cardinality(C) + Cardinality(K)
              /\ mp' = K /\ ref' = r /\ spl' = s /\ cln' = c /\ exact' = FALSE
              /\ ledger' = IF K = {} THEN 0 ELSE ledger - SumNel(mp \ C)
              /\ slack' = IF K = {} THEN 0 ELSE slack + Cardinality(C) + Cardinality(K)

Stutter == UNCHANGED vars        \* reading the store (positions, saved dictionary) changes nothing
------------------------------------------------------------------------------
ChargeConserved == AbsI(SumNel(mp) - ledger) <= slack
RefFloor == ref >= Ref0
ThresholdsFollow == Thresholds(ref, spl, cln, Amb)
=============================================================================
