---------------------------- MODULE SpaceCharge ----------------------------
(* When the self-field of the clouds is computed, and from what                *)
(* (space_charge_class.py, buildup_simulation.py).                             *)
(* At every step each cloud has some charge to deposit; the field in use is    *)
(* the one of the deposits of all clouds at the last recomputation.            *)
EXTENDS Integers, Sequences
VARIABLES conf,   \* [dt, ton, clouds]: interval (0: every step), switch-on time, number of clouds
          t,      \* time of the step
          tdue,   \* last time at which a recomputation fell due
          trec,   \* last time at which the field was recomputed (-1: never)
          used    \* the deposits in use, one per cloud (<<>>: none yet)
vars == <<conf, t, tdue, trec, used>>
Init(C) == conf \in C /\ t = -1 /\ tdue = 0 /\ trec = -1 /\ used = <<>>
Due(tn) == conf.dt = 0 \/ tn - tdue >= conf.dt
Done(tn, force) == (Due(tn) /\ tn > conf.ton) \/ force
Step(tn, force, dep) ==
  /\ tn > t /\ t' = tn
  /\ tdue' = IF Due(tn) THEN tn ELSE tdue
  /\ trec' = IF Done(tn, force) THEN tn ELSE trec
  /\ used' = IF Done(tn, force) THEN dep ELSE used
  /\ UNCHANGED conf
=============================================================================
