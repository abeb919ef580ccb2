---------------------------- MODULE CouplingTrace ----------------------------
(* Recorded histories of the real interface.  A cloud is a function of what has  *)
(* acted on it since it was new or reset: the same passages give the same cloud. *)
EXTENDS Coupling, TraceUtil
VARIABLES k, l, st
Ev == Traces[k].ev
E == Ev[l]
C == Traces[k].cfg
In(x, s) == \E j \in 1..Len(s) : s[j] = x
Zero(x) == [c \in 1..2 |-> x]
Op == C.ops[st.i]
B == C.beams[Op.b]
Early == Len(C.obs) + Len(C.probes) > 0
TNew == /\ E.op = "new" /\ \A c \in 1..Len(E.ids) : E.ids[c] = E.ids[1]
        /\ st' = [i |-> 0, q |-> <<>>, init |-> E.ids[1], id |-> Zero(E.ids[1]), since |-> Zero(<<IF Early THEN "reset" ELSE "new">>), memo |-> {}, t |-> Zero(0), rc |-> Zero(IF Early THEN 1 ELSE 0), rec |-> Zero(<<>>),
                  frozen |-> 0, tracks |-> Zero(0), once |-> Zero(FALSE), on |-> FALSE]
Skipped(op, s) == op.k \notin {"track", "freeze"} \/ (C.mode = "whole" /\ op.k = "track" /\ s.once[op.c] /\ s.tracks[op.c] > 0)
TBegin == /\ E.op = "begin" /\ E.i = st.i + 1 /\ st.q = <<>>
          /\ LET op == C.ops[E.i]
                 b == C.beams[op.b]
                 acts == ~Skipped(op, st) /\ st.frozen = 0
                 anew == (acts /\ (C.mode = "whole" \/ (Anew(C, b) /\ Stop(C, b) # 1) \/ op.k = "freeze")) \/ (op.k = "reset" /\ st.frozen = 0)
                 more == IF op.k = "freeze" /\ C.mode = "slices" /\ Anew(C, b) THEN 2 ELSE 1
             IN st' = [st EXCEPT !.i = E.i, !.on = acts, !.q = IF acts THEN Passage(C, b) ELSE <<>>,
                                 !.id[op.c] = IF anew THEN st.init ELSE @, !.since[op.c] = IF anew THEN <<"reset">> ELSE @, !.rc[op.c] = IF anew THEN @ + more ELSE @, !.rec[op.c] = IF anew THEN <<>> ELSE @,
                                 !.once[op.c] = @ \/ op.k = "once"]
TStep == /\ E.op = "step" /\ st.q # <<>> /\ E.c = Op.c
         /\ LET p == Head(st.q)
                s == B[p[1]]
                n == Pieces(C, s)
                key == Append(st.since[E.c], <<Op.b, p[1], p[2]>>)
            IN /\ E.before = st.id[E.c]
               /\ Abs(E.dt * n - s.d * 1000) <= n + 1 /\ E.n \in SubSteps(C, s) /\ E.fit
               /\ In(IF Acts(s) THEN p[1] ELSE 0, E.match)
               /\ E.np = NewBunch(C, B, p[1], p[2]) /\ E.pas = BunchOf(C, B, p[1])
               /\ (s.inter \/ p[2] = 1 => E.force) /\ E.clean = ~s.inter /\ E.regen = ~s.inter
               /\ E.kick = C.kickmode /\ E.again = (C.again /\ s.inter)
               /\ Abs(E.t - st.t[E.c]) <= 2
               /\ \A m \in st.memo : m[1] = key => m[2] = E.after
               /\ st' = [st EXCEPT !.q = Tail(@), !.id[E.c] = E.after, !.since[E.c] = key, !.memo = @ \cup {<<key, E.after>>}, !.t[E.c] = E.t + E.dt,
                                   !.rec[E.c] = Append(@, [t |-> E.t, nel |-> E.nel, np |-> E.np, pas |-> E.pas])]
\* the step whose cloud gives the kick of slice x
Want(x, enabled) == LET Bf == IF st.frozen > 0 THEN C.beams[st.frozen] ELSE B IN
   IF ~enabled \/ (st.frozen = 0 /\ ~st.on) \/ B[x].n = 0 \/ ~B[x].inter THEN 0 ELSE StepOf(C, Bf, x)
TEnd == /\ E.op = "end" /\ E.i = st.i /\ st.q = <<>> /\ E.still
        /\ E.refused = (st.on /\ Stop(C, B) # 0)
        /\ (~E.refused /\ Op.k \in {"track", "freeze"} =>
              /\ Len(E.kx) = Len(B) /\ Len(E.ky) = Len(B)
              /\ \A x \in 1..Len(B) : In(Want(x, C.kickx), E.kx[x]) /\ In(Want(x, C.kicky), E.ky[x])
              /\ \A x \in 1..Len(E.nobs) : E.nobs[x] = Len(st.rec[Op.c])
              /\ (st.frozen = 0 => E.cleaned = IF C.cleanf /\ st.on THEN 1 ELSE 0))
        /\ (Op.k = "reset" /\ st.frozen = 0 => E.id = st.init)
        /\ st' = [st EXCEPT !.tracks[Op.c] = IF st.on /\ ~E.refused THEN @ + 1 ELSE @, !.frozen = IF Op.k = "freeze" THEN Op.b ELSE @]
\* ---- the output file of a turn
Due(r) == r.np /\ (C.opt = "every2" => (r.pas + 1) % 2 = 0)
RECURSIVE LastDue(_, _)
LastDue(r, n) == IF n = 0 THEN 0 ELSE IF Due(r[n]) THEN n ELSE LastDue(r, n - 1)
RECURSIVE Sampled(_, _, _, _)
Sampled(r, n, j, last) == IF j > n THEN <<>> ELSE IF last = <<>> \/ r[j].t - last[1] >= 1000 * C.D - 2 THEN <<r[j]>> \o Sampled(r, n, j + 1, <<r[j].t>>) ELSE Sampled(r, n, j + 1, last)
TFile == /\ E.op = "file"
         /\ LET r == st.rec[E.c]  n == LastDue(r, Len(r)) IN
              /\ E.n = st.rc[E.c] - 1 /\ E.there = (n > 0)
              /\ (E.there => /\ E.opt
                             /\ LET s == Sampled(r, n, 1, <<>>) IN Len(E.t) = Len(s) /\ Len(E.nel) = Len(s) /\ \A j \in 1..Len(s) : Abs(E.t[j] - s[j].t) <= 1 /\ E.nel[j] = s[j].nel)
         /\ UNCHANGED st
TInit == k \in 1..NTraces /\ l = 1 /\ st = [i |-> 0]
TNext == /\ l <= Len(Ev) /\ (TNew \/ TBegin \/ TStep \/ TEnd \/ TFile) /\ l' = l + 1 /\ UNCHANGED k
TSpec == TInit /\ [][TNext]_<<k, l, st>>
Marked == Mark(k, l)
Where == <<k, l>>
Accepted == Verdict
=============================================================================
