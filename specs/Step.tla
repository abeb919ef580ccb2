-------------------------------- MODULE Step --------------------------------
(* The order of the phases of a time step, and the runs made of steps          *)
(* (buildup_simulation.py).                                                    *)
(* The phases of different clouds may interleave in any way that respects      *)
(* their dependencies; each must happen exactly as often as the step needs it. *)
(* Covered times are in millionths of the time the step has to cover.          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES conf,   \* [nc, nb, gas, photo, cross, reinterp, saver, async, tion, times]
          run,    \* [kind, tend]: what is being asked for ("idle", "run", "manual")
          i,      \* number of steps begun
          beat,   \* beams that have reached step i
          open,   \* is the step under way?
          st,     \* its [t, new, kick, skipc, skipr, empty]
          cov,    \* cov[c]: time cloud c has moved
          mov,    \* mov[c]: number of times it was moved
          done,   \* done[c]: phases done
          gasb,   \* gasb[c]: beams that have ionized the gas for c
          crossed
vars == <<conf, run, i, beat, open, st, cov, mov, done, gasb, crossed>>
Full == 1000000
Tol == 20
None == -1
Clouds == 1..conf.nc
Beams == 1..conf.nb
N == Len(conf.times)
Now == IF i = 0 THEN None ELSE conf.times[i]
Idle == [kind |-> "idle", tend |-> None]
NoStep == [t |-> None, new |-> FALSE, kick |-> FALSE, skipc |-> FALSE, skipr |-> FALSE, empty |-> {}]
Init(C) == /\ conf \in C /\ run = Idle /\ i = 0 /\ beat = {} /\ open = FALSE /\ st = NoStep
           /\ cov = <<>> /\ mov = <<>> /\ done = <<>> /\ gasb = <<>> /\ crossed = FALSE
frame == UNCHANGED <<conf, run, i, beat, st, open>>
-----------------------------------------------------------------------------
(* Runs *)
Over == i = N
Reached == run.tend # None /\ i > 0 /\ Now >= run.tend
Call(kind, tend) == /\ run = Idle /\ ~open /\ run' = [kind |-> kind, tend |-> tend]
                    /\ UNCHANGED <<conf, i, beat, open, st, cov, mov, done, gasb, crossed>>
Ret == /\ run # Idle /\ ~open /\ beat \in {{}, Beams} /\ (run.kind = "run" => Over \/ Reached)
       /\ run' = Idle /\ UNCHANGED <<conf, i, beat, open, st, cov, mov, done, gasb, crossed>>
\* the main beam leads
Tick == /\ run # Idle /\ ~open /\ ~Over /\ (run.kind = "run" => ~Reached) /\ beat \in {{}, Beams} /\ st.t = Now /\ i' = i + 1 /\ beat' = {1}
        /\ UNCHANGED <<conf, run, open, st, cov, mov, done, gasb, crossed>>
SecTick(b) == /\ ~open /\ 1 \in beat /\ b \in Beams \ beat /\ beat' = beat \cup {b}
              /\ UNCHANGED <<conf, run, i, open, st, cov, mov, done, gasb, crossed>>
Begin(s) == /\ ~open /\ beat = Beams /\ s.t = Now /\ st # s /\ st.t < s.t /\ st' = s /\ open' = TRUE
            /\ cov' = [c \in Clouds |-> 0] /\ mov' = [c \in Clouds |-> 0] /\ done' = [c \in Clouds |-> {}]
            /\ gasb' = [c \in Clouds |-> {}] /\ crossed' = FALSE
            /\ UNCHANGED <<conf, run, i, beat>>
-----------------------------------------------------------------------------
(* Phases *)
Once(c, p) == p \notin done[c] /\ done' = [done EXCEPT ![c] = @ \cup {p}]
Moved(c) == cov[c] >= Full - Tol \/ (c \in st.empty /\ cov[c] = 0)
Hit(c) == "impact" \in done[c] \/ c \in st.empty
Ionizing(c) == c \in conf.gas /\ st.t < conf.tion
Primaries(c) == /\ Hit(c) /\ "sey" \in done[c]
                /\ gasb[c] = (IF Ionizing(c) THEN Beams ELSE {})
                /\ ("photo" \in done[c]) = (c \in conf.photo)
Generated == (\A c \in Clouds : Primaries(c)) /\ crossed = conf.cross
Deposited == { c \in Clouds : "dep" \in done[c] }
Saved == \A c \in conf.saver : "wit" \in done[c]
Cleaned(c) == ("clean" \in done[c]) = (st.new /\ ~st.skipc)
Regen(c) == ("regen" \in done[c]) = (st.new /\ ~st.skipr)
Soft(c) == ("soft" \in done[c]) = (st.new /\ ~st.skipr)

Fresh(c) == done[c] = {} /\ gasb[c] = {}
\* ppm: part of the step covered by this motion of nsub sub-steps, in the fields the particles see at its beginning
Move(c, ppm, nsub) ==
  /\ open /\ Fresh(c) /\ cov[c] + ppm <= Full + Tol /\ ppm > 0
  /\ (IF conf.reinterp THEN nsub = 1 ELSE mov[c] = 0 /\ ppm >= Full - Tol)
  /\ cov' = [cov EXCEPT ![c] = @ + ppm] /\ mov' = [mov EXCEPT ![c] = @ + 1]
  /\ UNCHANGED <<done, gasb, crossed>> /\ frame
Impact(c) == open /\ Fresh(c) /\ Moved(c) /\ Once(c, "impact") /\ UNCHANGED <<cov, mov, gasb, crossed>> /\ frame
Sey(c) == open /\ Moved(c) /\ Hit(c) /\ Once(c, "sey") /\ UNCHANGED <<cov, mov, gasb, crossed>> /\ frame
Gas(c, b) == /\ open /\ Moved(c) /\ Hit(c) /\ Ionizing(c) /\ b \in Beams \ gasb[c] /\ gasb' = [gasb EXCEPT ![c] = @ \cup {b}]
             /\ UNCHANGED <<cov, mov, done, crossed>> /\ frame
Photo(c) == open /\ Moved(c) /\ Hit(c) /\ c \in conf.photo /\ Once(c, "photo") /\ UNCHANGED <<cov, mov, gasb, crossed>> /\ frame
Cross == /\ open /\ conf.cross /\ ~crossed /\ (\A c \in Clouds : Primaries(c)) /\ crossed' = TRUE
         /\ UNCHANGED <<cov, mov, done, gasb>> /\ frame
Dep(c) == open /\ Generated /\ (\A d \in Clouds : done[d] \cap {"wit", "clean", "regen", "soft", "async"} = {}) /\ Once(c, "dep") /\ UNCHANGED <<cov, mov, gasb, crossed>> /\ frame
AllOrNone == Deposited \in {{}, Clouds}
Wit(c) == /\ open /\ Generated /\ AllOrNone /\ c \in conf.saver /\ (\A d \in Clouds : done[d] \cap {"clean", "regen", "soft", "async"} = {})
          /\ Once(c, "wit") /\ UNCHANGED <<cov, mov, gasb, crossed>> /\ frame
Ready == open /\ Generated /\ AllOrNone /\ Saved
Clean(c) == /\ Ready /\ st.new /\ ~st.skipc /\ done[c] \cap {"regen", "soft", "async"} = {} /\ Once(c, "clean")
            /\ UNCHANGED <<cov, mov, gasb, crossed>> /\ frame
FullRegen(c) == /\ Ready /\ st.new /\ ~st.skipr /\ Cleaned(c) /\ done[c] \cap {"soft", "async"} = {} /\ Once(c, "regen")
                /\ UNCHANGED <<cov, mov, gasb, crossed>> /\ frame
SoftRegen(c) == /\ Ready /\ st.new /\ ~st.skipr /\ Cleaned(c) /\ Regen(c) /\ "async" \notin done[c] /\ Once(c, "soft")
                /\ UNCHANGED <<cov, mov, gasb, crossed>> /\ frame
Async(c) == /\ Ready /\ Cleaned(c) /\ Regen(c) /\ Soft(c) /\ Once(c, "async")
            /\ UNCHANGED <<cov, mov, gasb, crossed>> /\ frame
Complete(c) == Cleaned(c) /\ Regen(c) /\ Soft(c) /\ (c \in conf.async => "async" \in done[c])
End == /\ Ready /\ (\A c \in Clouds : Complete(c)) /\ open' = FALSE
       /\ UNCHANGED <<conf, run, i, beat, st, cov, mov, done, gasb, crossed>>
Phase == \/ \E c \in Clouds : Impact(c) \/ Sey(c) \/ Photo(c) \/ Dep(c) \/ Wit(c) \/ Clean(c) \/ FullRegen(c) \/ SoftRegen(c) \/ Async(c)
         \/ \E c \in Clouds, b \in Beams : Gas(c, b)
         \/ Cross \/ End
=============================================================================
