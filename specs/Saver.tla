-------------------------------- MODULE Saver --------------------------------
(* What a simulation writes down (pyecloud_saver.py).                          *)
(* The simulation makes steps; at every step it offers, for each channel, an   *)
(* instantaneous value and an increment.  A channel takes a sample when it is  *)
(* due: the sample has the time of the step, the instantaneous value, and the  *)
(* increments of all steps since the previous sample.                          *)
(*   sbs   step-by-step data: due when dec*DtRef has elapsed                   *)
(*   pbp   pass-by-pass data: due at the first step of a bunch passage         *)
(*   enh   energy/angle histograms: due when DtEn has elapsed                  *)
(*   life  lifetime histogram: due when DtLife has elapsed                     *)
(* Movies collect a frame whenever the space charge has been recomputed and    *)
(* are written, one file per passage, at the first step of the next passage.   *)
(* The main output is a snapshot of all channels, written at the first step    *)
(* of every `every'-th passage; states are saved at times given by the user.   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

VARIABLES conf,    \* [dec, dtref, dten, dtlife, every, tobs, tsim]
          now,     \* [t, new, pass, sc]
          log,     \* channel -> sequence of samples [t, i, a, n]
          acc,     \* channel -> increments since the last sample
          cnt,     \* channel -> number of steps since the last sample
          reel,    \* frames of the movie of the current passage
          films,   \* films written: sequence of [pass, frames]
          file,    \* what the main output file holds: [n |-> 0] or lengths of the logs at the time of writing
          obs,     \* MP states saved, [t]
          sims,    \* simulation states saved
          hist     \* all steps (history variable for the properties)
vars == <<conf, now, log, acc, cnt, reel, films, file, obs, sims, hist>>

Chans == {"sbs", "pbp", "enh", "life"}
Never == 0 - 1000000000
LastT(c) == IF log[c] = <<>> THEN Never ELSE Last(log[c]).t

Due(c, t, new) ==
    CASE c = "sbs"  -> t - LastT(c) >= conf.dec * conf.dtref
      [] c = "pbp"  -> new
      [] c = "enh"  -> t - LastT(c) >= conf.dten
      [] c = "life" -> conf.dtlife > 0 /\ t - LastT(c) >= conf.dtlife

Plus(a, b) == [j \in DOMAIN b |-> IF a = <<>> THEN b[j] ELSE a[j] + b[j]]
WriteNow(new, pass) == new /\ (pass + 1) % conf.every = 0

Init(C) == /\ conf \in C
           /\ now = [t |-> -1, new |-> FALSE, pass |-> -1, sc |-> FALSE]
           /\ log = [c \in Chans |-> <<>>] /\ acc = [c \in Chans |-> <<>>] /\ cnt = [c \in Chans |-> 0]
           /\ reel = <<>> /\ films = <<>> /\ file = [c \in Chans |-> -1] /\ obs = <<>> /\ sims = <<>> /\ hist = <<>>

\* v: channel -> [i, a]; f: the movie frame of this step; alive: there are macroparticles
StepCore(t, new, pass, sc, v, f, alive) ==
    LET sum == [c \in Chans |-> Plus(acc[c], v[c].a)]
        due == { c \in Chans : Due(c, t, new) }
        reel1 == IF sc THEN Append(reel, [t |-> t, f |-> f]) ELSE reel
    IN /\ now' = [t |-> t, new |-> new, pass |-> pass, sc |-> sc]
       /\ log' = [c \in Chans |-> IF c \in due THEN Append(log[c], [t |-> t, i |-> v[c].i, a |-> sum[c], n |-> cnt[c] + 1])
                                  ELSE log[c]]
       /\ acc' = [c \in Chans |-> IF c \in due THEN <<>> ELSE sum[c]]
       /\ cnt' = [c \in Chans |-> IF c \in due THEN 0 ELSE cnt[c] + 1]
       /\ reel' = IF new THEN <<>> ELSE reel1
       /\ films' = IF new THEN Append(films, [pass |-> pass - 1, frames |-> reel1]) ELSE films
       /\ file' = IF WriteNow(new, pass) THEN [c \in Chans |-> Len(log'[c])] ELSE file
       /\ obs' = IF alive /\ Len(obs) < Len(conf.tobs) /\ t >= conf.tobs[Len(obs) + 1] THEN Append(obs, t) ELSE obs
       /\ sims' = IF Len(sims) < Len(conf.tsim) /\ t >= conf.tsim[Len(sims) + 1] THEN Append(sims, t) ELSE sims
       /\ UNCHANGED conf
Step(t, new, pass, sc, v, f, alive) ==
    /\ StepCore(t, new, pass, sc, v, f, alive)
    /\ hist' = Append(hist, [t |-> t, new |-> new, v |-> v, alive |-> alive, sc |-> sc])

(* ------------------------------ properties -------------------------------- *)
SumA(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
First(a) == IF a = <<>> THEN 0 ELSE a[1]
\* nothing lost, nothing counted twice
Complete == \A c \in Chans :
    SumA([k \in 1..Len(log[c]) |-> log[c][k].a[1]]) + First(acc[c]) = SumA([k \in 1..Len(hist) |-> hist[k].v[c].a[1]])
Ordered == \A c \in Chans : \A k \in 1..Len(log[c]) - 1 : log[c][k].t < log[c][k + 1].t
Interval(c) == CASE c = "sbs" -> conf.dec * conf.dtref [] c = "enh" -> conf.dten [] c = "life" -> conf.dtlife [] OTHER -> 0
\* the first step at which the interval has elapsed is sampled, and only that one
Times(c) == { log[c][k].t : k \in 1..Len(log[c]) }
Punctual == \A c \in {"sbs", "enh", "life"} : (c # "life" \/ conf.dtlife > 0) =>
    /\ \A k \in 1..Len(log[c]) - 1 :
          /\ log[c][k + 1].t - log[c][k].t >= Interval(c)
          /\ ~\E h \in 1..Len(hist) : hist[h].t > log[c][k].t /\ hist[h].t < log[c][k + 1].t
                                      /\ hist[h].t - log[c][k].t >= Interval(c)
    /\ (Len(hist) > 0 => hist[1].t \in Times(c))
OnePerPass == Len(log["pbp"]) = Cardinality({ h \in 1..Len(hist) : hist[h].new })
\* every frame is in exactly one film, in order
AllFrames == FlattenSeq([k \in 1..Len(films) |-> [j \in 1..Len(films[k].frames) |-> films[k].frames[j].t]])
             \o [j \in 1..Len(reel) |-> reel[j].t]
FilmsComplete == AllFrames = SelectSeq([h \in 1..Len(hist) |-> IF hist[h].sc THEN hist[h].t ELSE -1], LAMBDA x : x >= 0)
FileIsPrefix == \A c \in Chans : file[c] <= Len(log[c])
StatesPunctual == \A k \in 1..Len(obs) : obs[k] >= conf.tobs[k]
Good == Complete /\ Ordered /\ Punctual /\ OnePerPass /\ FilmsComplete /\ FileIsPrefix /\ StatesPunctual
=============================================================================
