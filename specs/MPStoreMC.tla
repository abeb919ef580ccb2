----------------------------- MODULE MPStoreMC -----------------------------
(* Exhaustive check of MPStore with small constants, and generation of       *)
(* operation sequences (behaviours) that are replayed into the real code.    *)
EXTENDS MPStore, TLC, Json, TLCExt
CONSTANTS Nels, Targets, DNs, MaxId, Depth, MaxList,
          Surv(_)   \* the sets of survivors to consider
VARIABLES next,   \* next fresh row name
          hist,   \* operations so far (what the driver replays)
          mode    \* generation only

AllSurv(M) == SUBSET M \ {{}}
FewSurv(M) == { M, { p \in M : p.id % 2 = 0 } } \ {{}}

Scaled(M, S) == LET Q == SumNel(M) Qs == SumNel(S)
                IN { [id |-> p.id, nel |-> (p.nel * Q) \div Qs, tl |-> p.tl] : p \in S }
RefAfter(M, t) == IF SumNel(M) < Ref0 * t THEN Ref0 ELSE SumNel(M) \div t
Sp(r) == (r * FSn) \div FSd
Cl(r) == (r * FCn) \div FCd
Op(o) == hist' = Append(hist, o)

MCInit == Init /\ next = 1 /\ hist = <<>> /\ mode = "pick"

AddOp(ns) == LET P == { [id |-> next + i - 1, nel |-> ns[i], tl |-> next + i] : i \in 1..Len(ns) }
             IN /\ next + Len(ns) - 1 <= MaxId
                /\ \/ Add(P) /\ Op([op |-> "add", nel |-> ns])
                   \/ Add({ [p EXCEPT !.tl = -1] : p \in P }) /\ Op([op |-> "file", nel |-> ns])
                   \/ Load({ [p EXCEPT !.tl = -1] : p \in P }) /\ Op([op |-> "load", nel |-> ns])
                /\ next' = next + Len(ns)
UnifOp(dn) == \E k \in { dn \div ref, dn \div ref + 1 } :
                /\ next + k - 1 <= MaxId
                /\ AddUniform(dn, { [id |-> next + i - 1, nel |-> ref, tl |-> -1] : i \in 1..k })
                /\ next' = next + k /\ Op([op |-> "unif", dn |-> dn])
CleanOp == LET K == { p \in mp : p.nel >= cln }
               r == IF K = {} THEN Ref0 ELSE ref
           IN Clean(K, r, IF K = {} THEN Sp(r) ELSE spl, IF K = {} THEN Cl(r) ELSE cln)
              /\ Op([op |-> "clean"]) /\ UNCHANGED next
SoftOp(t) == /\ N > t
             /\ \E S \in Surv(mp) :
                  LET r == RefAfter(mp, t) IN
                  SumNel(S) > 0 /\ Soft(t, Scaled(mp, S), r, Sp(r), Cl(r))
             /\ Op([op |-> "soft", t |-> t]) /\ UNCHANGED next
CSoftOp == /\ \/ /\ N > SoftTh
                 /\ \E S \in Surv(mp) :
                    LET r == RefAfter(mp, SoftAfter) IN
                    SumNel(S) > 0 /\ CheckSoft(Scaled(mp, S), r, Sp(r), Cl(r))
              \/ N <= SoftTh /\ CheckSoft({}, 0, 0, 0)
           /\ Op([op |-> "csoft"]) /\ UNCHANGED next
CAsyncOp == /\ \/ N <= AsyncTh /\ CheckAsync({}, 0, 0, 0)
               \/ /\ N > AsyncTh
                  /\ LET C == { p \in mp : p.nel >= cln } IN
                     IF Cardinality(C) <= AsyncTh
                     THEN LET r == IF C = {} THEN Ref0 ELSE ref
                          IN CheckAsync(C, r, IF C = {} THEN Sp(r) ELSE spl, IF C = {} THEN Cl(r) ELSE cln)
                     ELSE \E S \in Surv(C) :
                            LET r == RefAfter(C, AsyncAfter) IN
                            SumNel(S) > 0 /\ CheckAsync(Scaled(C, S), r, Sp(r), Cl(r))
            /\ Op([op |-> "casync"]) /\ UNCHANGED next
SetRefOp(v) == SetRef(v, Sp(v), Cl(v)) /\ Op([op |-> "setref", v |-> v]) /\ UNCHANGED next
OverOp == Stutter /\ Op([op |-> "over"]) /\ UNCHANGED next
ReadOp == Stutter /\ Op([op |-> "read"]) /\ UNCHANGED next

Lists == UNION { [1..k -> Nels] : k \in 1..MaxList }
MCNext == \/ \E ns \in Lists : AddOp(ns)
          \/ \E dn \in DNs : UnifOp(dn)
          \/ CleanOp \/ CSoftOp \/ CAsyncOp
          \/ \E t \in Targets : SoftOp(t)
          \/ \E v \in {Ref0, 2 * Ref0} : SetRefOp(v)
          \/ OverOp \/ ReadOp

MCView == <<mp, ref, spl, cln, exact, next>>
\* histories and the ledger do not add behaviour
MCSpecOK == TypeOK /\ ChargeConserved /\ RefFloor /\ ThresholdsFollow
Bound == Len(hist) < Depth
MCNextM == MCNext /\ UNCHANGED mode

(* Generation: first a kind of operation, then one of its instances, so that every kind is equally likely. *)
Kinds == {"add", "add2", "unif", "clean", "clean2", "soft", "csoft", "casync", "setref", "other"}
GenStep ==
    /\ mode' = "pick"
    /\ \/ mode \in {"add", "add2"} /\ \E ns \in Lists : AddOp(ns)
       \/ mode = "unif" /\ \E dn \in DNs : UnifOp(dn)
       \/ mode \in {"clean", "clean2"} /\ CleanOp
       \/ mode = "soft" /\ \E t \in Targets : SoftOp(t)
       \/ mode = "csoft" /\ CSoftOp
       \/ mode = "casync" /\ CAsyncOp
       \/ mode = "setref" /\ \E v \in {Ref0, 2 * Ref0} : SetRefOp(v)
       \/ mode = "other" /\ (OverOp \/ ReadOp)
GenNext == \/ /\ mode = "pick" /\ Len(hist) < Depth /\ mode' \in Kinds /\ UNCHANGED <<vars, next, hist>>
           \/ /\ mode = "pick" /\ Len(hist) = Depth /\ mode' = "end" /\ UNCHANGED <<vars, next, hist>>
           \/ mode \notin {"pick", "end"} /\ GenStep
           \/ mode \notin {"pick", "end"} /\ ~ENABLED GenStep /\ mode' = "pick" /\ UNCHANGED <<vars, next, hist>>
Emit == (mode # "end") \/ PrintT("BEH " \o ToJson(hist))
=============================================================================
