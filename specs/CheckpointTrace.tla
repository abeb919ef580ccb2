-------------------------- MODULE CheckpointTrace --------------------------
(* Judges recorded histories of killed and restarted real simulations: one    *)
(* event per process (life), and a last one comparing everything the finished *)
(* run left behind with an uninterrupted run.                                 *)
EXTENDS Checkpoint, TraceUtil
VARIABLES k, l, disk
Ev == Traces[k].ev[l]
ContiguousFrom(s, a) == \A j \in 1..Len(s) : s[j] = a + j - 1
Set(s) == { s[j] : j \in 1..Len(s) }
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
\* checkpoints an undisturbed process started at b makes: the passages at which the interval has elapsed since the last one
RECURSIVE DueAt(_, _, _)
DueAt(m, t, last) == \* steps from m on, up to `last'
  IF m > last THEN {} ELSE IF NewPass(m) /\ m - t >= conf.dt THEN {m} \cup DueAt(m + 1, m, last) ELSE DueAt(m + 1, t, last)
Start(b) == IF b < 0 THEN 0 ELSE b
\* the step at which the process ended is complete only if the next one was started (or the run is done)
Completed(e) == IF e.end = "done" THEN conf.steps - 1 ELSE IF e.steps = <<>> THEN e.boot ELSE e.steps[Len(e.steps)] - 1
Lifetime(e) ==
  LET dk == Set(e.disk) reached == IF e.steps = <<>> THEN e.boot ELSE e.steps[Len(e.steps)] IN
  /\ e.end \in {"killed", "done"}                                   \* a restart never fails
  /\ e.boot = (IF disk = {} THEN -1 ELSE MaxOf(disk))               \* it continues from the most recent checkpoint
  /\ ContiguousFrom(e.steps, e.boot + 1)                            \* step by step
  /\ e.wrong = <<>>                                                 \* in the state of the uninterrupted run
  /\ (e.end = "done" => reached = conf.steps - 1)
  /\ (disk # {} => dk # {} /\ MaxOf(dk) >= MaxOf(disk))             \* there is always a complete checkpoint again
  /\ dk \ disk \subseteq DueAt(e.boot + 1, Start(e.boot), reached)  \* made when due, and only then
  /\ LET due == DueAt(e.boot + 1, Start(e.boot), Completed(e)) IN due # {} => dk # {} /\ MaxOf(dk) >= MaxOf(due)
TInit ==
  /\ k \in 1..NTraces /\ l = 1 /\ disk = {}
  /\ conf = Traces[k].conf
  /\ n = -1 /\ pc = "boot" /\ cl = 1 /\ stage = "-" /\ log = <<>> /\ since = 0 /\ clean = {} /\ tck = 0 /\ i = 0
  /\ main = <<>> /\ copy = <<>> /\ cks = {} /\ kills = <<>> /\ ever = FALSE /\ todo = <<>>
TLife == /\ "end" \in DOMAIN Ev
         /\ TRUE = Lifetime(Ev)
         /\ disk' = Set(Ev.disk)
TFinal == /\ "final" \in DOMAIN Ev
          /\ Ev.final # <<>>
          /\ TRUE = \A j \in 1..Len(Ev.final) : Ev.final[j] = 0
          /\ UNCHANGED disk
TNext == l <= Len(Traces[k].ev) /\ (TLife \/ TFinal) /\ l' = l + 1 /\ UNCHANGED <<k, vars>>
TSpec == TInit /\ [][TNext]_<<vars, k, l, disk>>
Marked == Mark(k, l)
Where == <<k, l>>
Accepted == Verdict
=============================================================================
