----------------------------- MODULE Checkpoint -----------------------------
(* A run with checkpoints that may be killed at any point and restarted.       *)
(*                                                                             *)
(* Memory: the current step n, the log of the samples taken (each covers the   *)
(* steps since the previous one), the physical state (which steps were made    *)
(* and which bunch passages were cleaned).  Disk: the main output of every     *)
(* cloud and its safety copy (the log at the moment of writing), checkpoints   *)
(* (position, observation state and physical state, not the log).              *)
(* A bunch passage does: [main output, copy] per cloud, then the checkpoint,   *)
(* then the older checkpoints are removed, then MPs are cleaned.  Every file   *)
(* operation can be interrupted before it, half way, and before the new file   *)
(* takes its name.                                                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS
  ATOMIC,        \* files are replaced only when complete
  COPYFIRST,     \* main output and copy are made before the checkpoint
  KEEPOBS,       \* the checkpoint stores the state of the observation
  FINISH         \* the restart completes the time step of the checkpoint
VARIABLES conf, n, pc, cl, stage, log, since, clean, tck, i, main, copy, cks, kills, ever, todo
vars == <<conf, n, pc, cl, stage, log, since, clean, tck, i, main, copy, cks, kills, ever, todo>>
\* conf: steps = number of steps, bp = steps per passage, every, dt = checkpoint interval (steps), copy (BOOLEAN),
\*       clouds, dec = steps per sample
File(s) == [is |-> "file", log |-> s]
Absent == [is |-> "absent", log |-> <<>>]
Broken == [is |-> "broken", log |-> <<>>]
NewPass(m) == m % conf.bp = 0
Sample(m) == m % conf.dec = 0
\* what an uninterrupted run has recorded after step m
RECURSIVE Ref(_)
Ref(m) == IF m < 0 THEN <<>>
          ELSE IF Sample(m) THEN Append(Ref(m - 1), <<IF m = 0 THEN 0 ELSE m - conf.dec + 1, m>>) ELSE Ref(m - 1)
CleansUpTo(m) == { p \in 0..m : NewPass(p) }
Due == n - tck >= conf.dt
MainDue == ((n \div conf.bp) + 1) % conf.every = 0 \/ (Due /\ COPYFIRST)
Ops == (IF MainDue THEN <<"main">> ELSE <<>>) \o (IF Due /\ conf.copy /\ COPYFIRST THEN <<"copy">> ELSE <<>>)
       \o (IF Due /\ cl = conf.clouds THEN <<"ckpt">> ELSE <<>>)
       \o (IF Due /\ conf.copy /\ ~COPYFIRST THEN <<"copy">> ELSE <<>>)
       \o (IF Due /\ cl = conf.clouds THEN <<"remove">> ELSE <<>>)

Init(Confs) ==
  /\ conf \in Confs
  /\ n = -1 /\ pc = "boot" /\ cl = 1 /\ stage = "-" /\ log = <<>> /\ since = 0 /\ clean = {} /\ tck = 0 /\ i = 0
  /\ main = [c \in 1..conf.clouds |-> Absent] /\ copy = main /\ cks = {} /\ kills = <<>> /\ ever = FALSE /\ todo = <<>>

Complete == { c \in cks : c.ok }
Newest == CHOOSE c \in Complete : \A d \in Complete : d.n <= c.n
Disk(c) == IF conf.copy THEN copy[c] ELSE main[c]
Readable(c, len) == Disk(c).is = "file" /\ Len(Disk(c).log) >= len

\* The process starts (again)
Boot ==
  /\ pc = "boot"
  /\ IF cks = {} THEN
        /\ n' = -1 /\ log' = <<>> /\ since' = 0 /\ clean' = {} /\ tck' = 0 /\ i' = 0 /\ pc' = "step"
     ELSE IF (~ATOMIC /\ Cardinality(cks) > 1) \/ Complete = {} \/ \E c \in 1..conf.clouds : ~Readable(c, Newest.len) THEN
        /\ pc' = "stuck" /\ UNCHANGED <<n, log, since, clean, tck, i>>
     ELSE
        /\ n' = Newest.n /\ log' = SubSeq(Disk(1).log, 1, Newest.len) /\ tck' = Newest.n /\ i' = Newest.i + 1
        /\ since' = IF KEEPOBS THEN Newest.since ELSE Newest.n + 1
        /\ clean' = IF FINISH THEN Newest.clean \cup {Newest.n} ELSE Newest.clean
        /\ pc' = "step"
  /\ cl' = 1 /\ stage' = "-" /\ todo' = <<>>
  /\ UNCHANGED <<conf, main, copy, cks, kills, ever>>

\* One time step in memory; file operations follow at a bunch passage
Compute ==
  /\ pc = "step" /\ n < conf.steps - 1
  /\ n' = n + 1
  /\ IF Sample(n + 1) THEN log' = Append(log, <<since, n + 1>>) /\ since' = n + 2 ELSE UNCHANGED <<log, since>>
  /\ pc' = IF NewPass(n + 1) THEN "files" ELSE "step"
  /\ cl' = 1 /\ stage' = "-" /\ todo' = <<"?">>
  /\ UNCHANGED <<conf, clean, tck, i, main, copy, cks, kills, ever>>
Plan ==
  /\ pc = "files" /\ todo = <<"?">>
  /\ todo' = Ops
  /\ UNCHANGED <<conf, n, pc, cl, stage, log, since, clean, tck, i, main, copy, cks, kills, ever>>

\* One file operation goes through its stages; "moved": it is complete
NextStage == CASE stage = "-" -> "open" [] stage = "open" -> "half" [] stage = "half" -> "full" [] stage = "full" -> "moved"
Put(f) == IF ATOMIC THEN (IF stage' = "moved" THEN File(log) ELSE f) ELSE (IF stage' \in {"open", "half"} THEN Broken ELSE File(log))
Visible == IF ATOMIC THEN stage' = "moved" ELSE TRUE
ThisCk == [i |-> i, n |-> n, len |-> Len(log), since |-> since, clean |-> clean,
           ok |-> IF ATOMIC THEN TRUE ELSE stage' \notin {"open", "half"}]
FileOp ==
  /\ pc = "files" /\ todo # <<>> /\ todo # <<"?">> /\ stage # "moved"
  /\ stage' = IF Head(todo) = "remove" THEN "moved" ELSE NextStage
  /\ main' = IF Head(todo) = "main" THEN [main EXCEPT ![cl] = Put(@)] ELSE main
  /\ copy' = IF Head(todo) = "copy" THEN
                [copy EXCEPT ![cl] = IF ATOMIC THEN (IF stage' = "moved" THEN main[cl] ELSE @)
                                     ELSE (IF stage' \in {"open", "half"} THEN Broken ELSE main[cl])] ELSE copy
  /\ cks' = CASE Head(todo) = "ckpt" -> (IF Visible THEN { c \in cks : c.i # i } \cup {ThisCk} ELSE cks)
              [] Head(todo) = "remove" -> { c \in cks : c.i = i }
              [] OTHER -> cks
  /\ ever' = (ever \/ (Head(todo) = "ckpt" /\ stage' = "moved"))
  /\ UNCHANGED <<conf, n, pc, cl, log, since, clean, tck, i, kills, todo>>
OpDone ==
  /\ pc = "files" /\ todo # <<>> /\ stage = "moved"
  /\ todo' = Tail(todo) /\ stage' = "-"
  /\ UNCHANGED <<conf, n, pc, cl, log, since, clean, tck, i, main, copy, cks, kills, ever>>
CloudDone ==
  /\ pc = "files" /\ todo = <<>>
  /\ IF cl < conf.clouds THEN cl' = cl + 1 /\ todo' = <<"?">> /\ UNCHANGED <<pc, tck, i, clean>>
     ELSE /\ pc' = "step" /\ clean' = clean \cup {n} /\ UNCHANGED <<cl, todo>>
          /\ IF Due THEN tck' = n /\ i' = i + 1 ELSE UNCHANGED <<tck, i>>
  /\ stage' = "-"
  /\ UNCHANGED <<conf, n, log, since, main, copy, cks, kills, ever>>

\* The process is killed: what was in memory is lost
Point == [step |-> IF pc = "step" THEN n + 1 ELSE n,
          op |-> IF pc = "files" /\ todo # <<>> /\ todo # <<"?">> THEN Head(todo) ELSE "compute",
          cloud |-> cl, stage |-> IF pc = "files" /\ todo = <<>> THEN "after" ELSE stage]
Kill(K) ==
  /\ pc \in {"step", "files"} /\ n >= 0 /\ Len(kills) < K
  /\ todo # <<"?">> /\ (pc = "step" => n < conf.steps - 1)
  /\ kills' = Append(kills, Point)
  /\ pc' = "boot" /\ stage' = "-" /\ todo' = <<>> /\ cl' = 1
  /\ UNCHANGED <<conf, n, log, since, clean, tck, i, main, copy, cks, ever>>
End ==
  /\ pc = "step" /\ n = conf.steps - 1 /\ pc' = "end"
  /\ UNCHANGED <<conf, n, cl, stage, log, since, clean, tck, i, main, copy, cks, kills, ever, todo>>
Live == Boot \/ Compute \/ Plan \/ FileOp \/ OpDone \/ CloudDone \/ End

\* The property
NeverStuck == pc # "stuck"
Available == ever => Complete # {}
Unchanged == pc \in {"step", "end"} => log = Ref(n)
Physics == pc \in {"step", "end"} /\ n >= 0 => clean = CleansUpTo(n)
LastWritten == IF \E p \in 0..conf.steps - 1 : NewPass(p) /\ ((p \div conf.bp) + 1) % conf.every = 0
               THEN CHOOSE p \in 0..conf.steps - 1 : NewPass(p) /\ ((p \div conf.bp) + 1) % conf.every = 0
                    /\ \A r \in 0..conf.steps - 1 : NewPass(r) /\ ((r \div conf.bp) + 1) % conf.every = 0 => r <= p
               ELSE -1
\* an axis that ends with a written passage
Whole == LastWritten >= 0 /\ LastWritten + conf.bp >= conf.steps
SameOutput == pc = "end" /\ Whole => \A c \in 1..conf.clouds : main[c] = File(Ref(LastWritten))
=============================================================================
