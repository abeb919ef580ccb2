---------------------------- MODULE CheckpointMC ----------------------------
EXTENDS Checkpoint, TLC, Json
CONSTANTS K, Steps, Bps, Everys, Dts, Clouds, Decs
Confs == { [steps |-> s, bp |-> b, every |-> e, dt |-> d, copy |-> y, clouds |-> c, dec |-> k] :
           s \in Steps, b \in Bps, e \in Everys, d \in Dts, y \in BOOLEAN, c \in Clouds, k \in Decs }
MCInit == Init({ c \in Confs : (c.steps + c.bp - 1) \div c.bp % c.every = 0 })
MCNext == Live \/ Kill(K)
\* for simulation: kills are rare, so that they are spread over the whole run
GenNext == IF RandomElement(1..45) = 1 /\ ENABLED Kill(K) THEN Kill(K) ELSE Live
GenSpec == MCInit /\ [][GenNext]_vars
MCSpec == MCInit /\ [][MCNext]_vars
\* the kill history only matters for the schedules
Abstract == <<conf, n, pc, cl, stage, log, since, clean, tck, i, main, copy, cks, Len(kills), ever, todo>>
Emit == pc # "end" \/ PrintT("BEH " \o ToJson([conf |-> conf, kills |-> kills]))
=============================================================================
