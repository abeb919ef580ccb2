----------------------------- MODULE SaverTrace -----------------------------
(* Recorded simulations: what every step offered to the saver, and what the    *)
(* output files finally hold.  Values are integers in units of a millionth of  *)
(* the largest one; sums of n rounded increments may be off by n/2 + 1.        *)
EXTENDS Saver, TraceUtil
VARIABLES k, l
Ev == Traces[k].ev
E == Ev[l]
TInit == /\ k \in 1..NTraces /\ l = 1 /\ Init({Traces[k].cfg})

Near(a, b, tol) == Abs(a - b) <= tol
NearSeq(x, y, tol) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : Near(x[j], y[j], tol)
CeilDiv(a, b) == (a + b - 1) \div b

TStep == /\ E.op = "step"
         /\ (IF now.pass = -1 THEN E.new /\ E.pass = 0 ELSE E.t > now.t)
         /\ StepCore(E.t, E.new, E.pass, E.sc, E.v, E.f, E.alive)
         /\ hist' = <<>>
         \* the main output on disk is the snapshot of the last time it was due
         /\ IF file'["sbs"] = -1 THEN E.len = <<-1, -1, -1>>
            ELSE \A j \in 1..3 : <<"sbs", "pbp", "enh">>[j] \in ToSet(conf.show) => E.len[j] = file'[<<"sbs", "pbp", "enh">>[j]]
SampleOK(s, o) == /\ o.t = s.t
                  /\ NearSeq(o.i, s.i, 2)
                  /\ NearSeq(o.a, s.a, 2 + s.n)
InFile(c) == c # "life" \/ conf.dtlife > 0
Shown(c) == c \in ToSet(conf.show) /\ (~conf.only \/ c # "life")
TFile == /\ E.op = "file" /\ file["sbs"] >= 0
         /\ TRUE = \A c \in Chans : (InFile(c) /\ Shown(c)) =>
              /\ Len(E.o[c]) = file[c]
              /\ \A j \in 1..Min2(file[c], Len(E.o[c])) : SampleOK(log[c][j], E.o[c][j])
              /\ \A n \in ToSet(E.o[c \o "_n"]) : n = file[c]
         /\ E.only = E.want
         /\ E.once = <<3, 5>>
         \* one entry per recomputation of the space charge up to the moment of writing
         /\ TRUE = (~conf.only => E.usc = SelectSeq(E.sct, LAMBDA x : x <= log["pbp"][file["pbp"]].t))
         /\ UNCHANGED vars
TNoFile == E.op = "nofile" /\ file["sbs"] = -1 /\ UNCHANGED vars
FilmOK(a, b) == /\ a.pass = b.pass /\ Len(a.frames) = Len(b.frames)
                /\ \A j \in 1..Len(a.frames) : a.frames[j].t = b.frames[j].t /\ NearSeq(a.frames[j].f, b.frames[j].f, 1)
\* passages without any step of their own overwrite nothing: the film is named after the previous passage number
TFilms == /\ E.op = "films" /\ Len(E.films) = Len(films)
          /\ \A j \in 1..Len(films) : FilmOK(E.films[j], films[j])
          /\ UNCHANGED vars
TMp == /\ E.op = "mpstates"
       /\ \A j \in 1..E.n + 1 : IF j <= Len(obs) THEN E.s[j].t = obs[j] /\ E.s[j].same ELSE E.s[j].t = -1
       /\ UNCHANGED vars
TSim == /\ E.op = "simstates"
        /\ \A j \in 1..E.n + 1 : IF j <= Len(sims) THEN E.s[j].t = sims[j] /\ E.s[j].same ELSE E.s[j].t = -1
        /\ UNCHANGED vars
TLog == /\ E.op = "log" /\ E.lines = E.passes * E.clouds /\ UNCHANGED vars
\* the cadence of writing must divide the number of passages
TRefused == /\ E.op = "refused" /\ CeilDiv(E.last, conf.B) % conf.every # 0 /\ UNCHANGED vars
TNext == /\ l <= Len(Ev) /\ (TStep \/ TFile \/ TNoFile \/ TFilms \/ TMp \/ TSim \/ TLog \/ TRefused)
         /\ l' = l + 1 /\ UNCHANGED k
Terminated == l > Len(Ev) /\ UNCHANGED <<vars, k, l>>
TSpec == TInit /\ [][TNext \/ Terminated]_<<vars, k, l>>
Marked == Mark(k, l)
Where == <<k, l>>      \* a recorded trace has one state per position
Accepted == Verdict
=============================================================================
